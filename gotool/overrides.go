package main

// functions of package vc/rt that stand in for library functions
var overrideNames = map[string]string{
	"Errorf":     "fmt.Errorf",
	"Sprintf":    "fmt.Sprintf",
	"Sprint":     "fmt.Sprint",
	"Printf":     "fmt.Printf",
	"Println":    "fmt.Println",
	"Fprintf":    "fmt.Fprintf",
	"PoolGet":    "(*sync.Pool).Get",
	"PoolPut":    "(*sync.Pool).Put",
	"MutexLock":  "(*sync.Mutex).Lock",
	"MutexUnlock": "(*sync.Mutex).Unlock",
	"ErrorsJoin": "errors.Join",
	"ErrorsIs":   "errors.Is",
}
