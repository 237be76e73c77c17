// Package exec stands in for os/exec: no command is there.
package exec

import (
	"errors"
	"io"
)

type Cmd struct {
	Path           string
	Args           []string
	Stdout, Stderr io.Writer
}

var ErrNotFound = errors.New("executable file not found in $PATH")

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}
func (c *Cmd) Run() error                      { return ErrNotFound }
func (c *Cmd) Start() error                    { return ErrNotFound }
func (c *Cmd) Wait() error                     { return ErrNotFound }
func (c *Cmd) Output() ([]byte, error)         { return nil, ErrNotFound }
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, ErrNotFound }
func LookPath(file string) (string, error)     { return "", ErrNotFound }
