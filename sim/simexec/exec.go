// Package simexec stands in for package os/exec in the code under test: external
// programs are Go functions acting on the simulated machine.
package simexec

import (
	"context"
	"errors"
	"io"
	"os"
	"strings"
	"time"

	"verifsim/simrt"
)

// Program is a simulated external program. It may sleep (virtual time).
type Program func(ctx context.Context, c *Cmd) error

// Programs are the installed programs.
var Programs = map[string]Program{}

// Runs counts executions.
var Runs int

// Cmd mirrors os/exec.Cmd.
type Cmd struct {
	Path      string
	Args      []string
	Env       []string
	Dir       string
	Stdin     io.Reader
	Stdout    io.Writer
	Stderr    io.Writer
	Err       error
	Cancel    func() error
	WaitDelay time.Duration

	Process      *os.Process
	ProcessState *os.ProcessState

	ctx  context.Context
	done chan error
}

var ErrNotFound = errors.New("executable file not found in $PATH")
var ErrDot = errors.New("cannot run executable found relative to current directory")
var ErrWaitDelay = errors.New("exec: WaitDelay expired before I/O complete")

type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: \"" + e.Name + "\": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

type ExitError struct {
	*os.ProcessState
	Stderr []byte
	Code   string
}

func (e *ExitError) Error() string { return e.Code }

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...), ctx: context.Background()}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func LookPath(file string) (string, error) {
	if _, ok := Programs[file]; ok {
		return file, nil
	}
	return "", &Error{file, ErrNotFound}
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) Start() error {
	simrt.Step()
	p, ok := Programs[c.Path]
	if !ok {
		return &Error{c.Path, ErrNotFound}
	}
	if err := c.ctx.Err(); err != nil {
		return err
	}
	Runs++
	c.done = make(chan error, 1)
	go func() { c.done <- p(c.ctx, c) }()
	return nil
}

func (c *Cmd) Wait() error {
	if c.done == nil {
		return errors.New("exec: not started")
	}
	select {
	case err := <-c.done:
		return err
	case <-c.ctx.Done():
		return &ExitError{Code: "signal: killed"}
	}
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

type buf struct{ b []byte }

func (b *buf) Write(p []byte) (int, error) { b.b = append(b.b, p...); return len(p), nil }

func (c *Cmd) Output() ([]byte, error) {
	b := &buf{}
	c.Stdout = b
	err := c.Run()
	return b.b, err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	b := &buf{}
	c.Stdout, c.Stderr = b, b
	err := c.Run()
	return b.b, err
}
