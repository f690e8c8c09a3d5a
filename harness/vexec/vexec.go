// Package vexec replaces package os/exec: programs registered in Programs run inside the process.
package vexec

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os/exec"
)

type (
	Error     = exec.Error
	ExitError = exec.ExitError
)

var (
	ErrNotFound = exec.ErrNotFound
	ErrDot      = exec.ErrDot
	LookPath    = exec.LookPath
)

// Programs maps executable names to their stand-ins; key "*" answers every other program.
var Programs = map[string]func(name, dir string, args []string, out, errOut io.Writer) error{}

type Cmd struct {
	*exec.Cmd
	name string
	args []string

	result error
}

func Command(name string, args ...string) *Cmd {
	return &Cmd{Cmd: exec.Command(name, args...), name: name, args: append([]string{}, args...)}
}

func CommandContext(ctx context.Context, name string, args ...string) *Cmd {
	return &Cmd{Cmd: exec.CommandContext(ctx, name, args...), name: name, args: append([]string{}, args...)}
}

func (c *Cmd) Run() error {
	f := Programs[c.name]
	if f == nil {
		f = Programs["*"]
	}
	if f == nil {
		return fmt.Errorf("exec: %q: no such stand-in", c.name)
	}
	var o, e io.Writer = io.Discard, io.Discard
	if c.Stdout != nil {
		o = c.Stdout
	}
	if c.Stderr != nil {
		e = c.Stderr
	}
	args := c.args
	if len(c.Args) > 0 {
		args = c.Args[1:]
	}
	return f(c.name, c.Dir, args, o, e)
}

// Start runs the whole program, Wait returns its result.
func (c *Cmd) Start() error {
	c.result = c.Run()
	return nil
}

func (c *Cmd) Wait() error { return c.result }

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
