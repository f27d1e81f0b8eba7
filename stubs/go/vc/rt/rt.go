// Package rt stands in for library functions in the verifier's view of the program.
package rt

import (
	"sync"
	"unsafe"
)

type anError struct{ b byte }

func (e *anError) Error() string { return "error" }

// formatted errors are distinct non-nil errors; formatted text is left unspecified
func Errorf(format string, a ...any) error  { return &anError{} }

// covers the verbs the code under contract prints (%02X of a byte); anything else prints as a question mark
func Sprintf(format string, a ...any) string {
	res := ""
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			res += format[i : i+1]
			continue
		}
		if i+3 < len(format) && format[i+1] == '0' && format[i+2] == '2' && format[i+3] == 'X' && n < len(a) {
			if b, ok := a[n].(byte); ok {
				const hex = "0123456789ABCDEF"
				res += hex[b>>4:b>>4+1] + hex[b&15:b&15+1]
				n++
				i += 3
				continue
			}
		}
		return res + "?"
	}
	return res
}

func Sprint(a ...any) string                { return "" }
func Printf(format string, a ...any) (int, error) { return 0, nil }
func Println(a ...any) (int, error)         { return 0, nil }
func PoolGet(p *sync.Pool) any {
	if p.New == nil {
		return nil
	}
	return p.New()
}
func PoolPut(p *sync.Pool, x any)      {}
func MutexLock(m *sync.Mutex)          {}
func MutexUnlock(m *sync.Mutex)        {}
func ErrorsJoin(errs ...error) error {
	for _, e := range errs {
		if e != nil {
			return &anError{}
		}
	}
	return nil
}

var _ unsafe.Pointer
