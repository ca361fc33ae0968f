// Package gomock is a stand-in; generated mocks only need it to compile.
package gomock

import "reflect"

type TestReporter interface {
	Errorf(format string, args ...any)
	Fatalf(format string, args ...any)
}
type TestHelper interface {
	TestReporter
	Helper()
}
type Controller struct{ T TestHelper }
type Call struct{}

func (c *Controller) Call(recv any, method string, args ...any) []any { panic("mock") }
func (c *Controller) RecordCallWithMethodType(recv any, method string, t reflect.Type, args ...any) *Call {
	panic("mock")
}
