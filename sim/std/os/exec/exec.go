// Package exec replaces os/exec: commands run as simulated processes.
package exec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"strconv"
	"strings"
	"syscall"

	zctx "ZZSIM/std/context"
	rt "ZZSIM/rt"
	"ZZSIM/std/os"
)

// Error replaces exec.Error.
type Error struct {
	Name string
	Err  error
}

func (e *Error) Error() string { return "exec: " + strconv.Quote(e.Name) + ": " + e.Err.Error() }
func (e *Error) Unwrap() error { return e.Err }

// ErrNotFound is exec.ErrNotFound.
var ErrNotFound = errors.New("executable file not found in $PATH")

// ExitError replaces exec.ExitError.
type ExitError struct {
	*os.ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd replaces exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	ctx          context.Context
	out, errb    []byte
	outPipe      *os.File
	errPipe      *os.File
	stop         chan struct{}
	started      bool
}

// LookPath is exec.LookPath.
func LookPath(file string) (string, error) {
	name := file[strings.LastIndex(file, "/")+1:]
	if !rt.HasBinary(name) {
		return "", &Error{file, ErrNotFound}
	}
	if strings.Contains(file, "/") {
		return file, nil
	}
	return "/usr/bin/" + file, nil
}

// Command is exec.Command.
func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	p, err := LookPath(name)
	if err != nil {
		c.Err = err
	} else {
		c.Path = p
	}
	return c
}

// CommandContext is exec.CommandContext.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string    { return strings.Join(c.Args, " ") }
func (c *Cmd) Environ() []string { return c.Env }

// StdoutPipe is Cmd.StdoutPipe.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	r, w, _ := os.Pipe()
	c.outPipe = w
	return r, nil
}

// StderrPipe is Cmd.StderrPipe.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	r, w, _ := os.Pipe()
	c.errPipe = w
	return r, nil
}

// Start is Cmd.Start.
func (c *Cmd) Start() error {
	if c.Err != nil {
		return c.Err
	}
	if c.started {
		return errors.New("exec: already started")
	}
	c.started = true
	if c.ctx != nil {
		if err := c.ctx.Err(); err != nil {
			return err
		}
	}
	if a, _ := rt.HookEvent("exec.start"); a != "" {
		e := syscall.ENOENT
		switch a {
		case "enomem":
			e = syscall.ENOMEM
		case "eagain":
			e = syscall.EAGAIN
		case "eacces":
			e = syscall.EACCES
		}
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: e}
	}
	bin := c.Path[strings.LastIndex(c.Path, "/")+1:]
	if !rt.HasBinary(bin) {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	var in []byte
	if c.Stdin != nil {
		in, _ = io.ReadAll(c.Stdin)
	}
	dir := c.Dir
	if dir == "" {
		dir = rt.Getwd()
	}
	o := rt.StartOpts{Cwd: dir, Stdin: in}
	if c.Stdout != nil && c.Stdout == c.Stderr {
		o.Combined = &c.out
	} else {
		o.Stdout, o.Stderr = &c.out, &c.errb
	}
	if c.outPipe != nil {
		o.OutPipe = c.outPipe.ZzOpenFile()
	}
	if c.errPipe != nil {
		o.ErrPipe = c.errPipe.ZzOpenFile()
	}
	n := rt.NextChild()
	var args []string
	if len(c.Args) > 1 {
		args = c.Args[1:]
	}
	p, err := rt.Start(rt.HostOf(), rt.Cur().Name()+"."+bin+strconv.Itoa(n), bin, args, o)
	if err != nil {
		return &os.PathError{Op: "fork/exec", Path: c.Path, Err: err}
	}
	c.Process = &os.Process{Pid: 1000 + p.ID(), P: p}
	if c.ctx != nil && c.ctx.Done() != nil {
		c.stop = make(chan struct{})
		done, stop := c.ctx.Done(), c.stop
		rt.Go(func() {
			s := rt.NewSel(false)
			rt.SelRecv(s, done)
			rt.SelRecv(s, stop)
			if s.Do() == 0 {
				if c.Cancel != nil {
					c.Cancel()
				} else {
					rt.Kill(p, "signal: killed")
				}
			}
		})
	}
	return nil
}

// Wait is Cmd.Wait.
func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	rt.WaitProc(c.Process.P)
	c.ProcessState = &os.ProcessState{P: c.Process.P}
	if c.stop != nil {
		rt.CS(c.stop).Close()
	}
	var werr error
	if c.Stdout != nil && len(c.out) > 0 {
		if _, err := c.Stdout.Write(c.out); err != nil {
			werr = err
		}
	}
	if c.Stderr != nil && len(c.errb) > 0 {
		if _, err := c.Stderr.Write(c.errb); err != nil {
			werr = err
		}
	}
	if !c.ProcessState.Success() {
		if c.ctx != nil && c.ctx.Err() != nil {
			return c.ctx.Err()
		}
		return &ExitError{ProcessState: c.ProcessState}
	}
	return werr
}

// Run is Cmd.Run.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output is Cmd.Output.
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b, eb bytes.Buffer
	c.Stdout = &b
	capture := c.Stderr == nil
	if capture {
		c.Stderr = &eb
	}
	err := c.Run()
	if ee, ok := err.(*ExitError); ok && capture {
		ee.Stderr = eb.Bytes()
	}
	return b.Bytes(), err
}

// CombinedOutput is Cmd.CombinedOutput.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	if c.Stderr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}

var _ = zctx.Cause
