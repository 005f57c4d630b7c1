package erro

import "errors"

type Error struct {
	error
	stack []byte
}

func NewError(msg string) *Error { return &Error{error: errors.New(msg)} }
func Wrap(err error) *Error      { return &Error{error: err} }
func (e *Error) Unwrap() error   { return e.error }
