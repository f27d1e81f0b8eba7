// Package gomock stands in for go.uber.org/mock/gomock: just enough for the generated mocks to compile.
package gomock

import "reflect"

type TestHelper interface{ Helper() }
type Controller struct{ T TestHelper }
type Call struct{}

func (c *Controller) Call(receiver any, method string, args ...any) []any { return nil }
func (c *Controller) RecordCallWithMethodType(receiver any, method string, t reflect.Type, args ...any) *Call {
	return &Call{}
}
