package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"verif.local/sim/core"
	"verif.local/sim/proto"
)

// env of a worker.
func workerEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=3 atexit_sleep_ms=0", "GOTRACEBACK=single", "GOMAXPROCS=1")
}

// death describes how a worker ended by itself.
func death(prop string, code int, stderr string) (v *core.Violation, harness string) {
	switch {
	case strings.Contains(stderr, "WARNING: DATA RACE"):
		i := strings.Index(stderr, "WARNING: DATA RACE")
		txt := stderr[i:]
		if !strings.Contains(txt, "Comcast/scte35-go/") {
			return nil, "data race inside the simulator:\n" + txt
		}
		var fr []string
		for _, l := range strings.Split(txt, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") {
				if len(fr) > 12 {
					break
				}
				w, _, _ := strings.Cut(l, " at 0x")
				fr = append(fr, w+":")
			} else if strings.Contains(l, "Comcast/scte35-go/") && strings.Contains(l, "(") && !strings.HasPrefix(l, "/") && len(fr) > 0 && len(fr) < 12 {
				fr = append(fr, l)
			}
			if strings.HasPrefix(l, "Goroutine") {
				break
			}
		}
		return &core.Violation{Prop: prop, Class: "data race", Msg: "data race: " + strings.Join(fr, " ")}, ""
	case strings.Contains(stderr, "fatal error: ") && !strings.Contains(stderr, "out of memory"):
		i := strings.Index(stderr, "fatal error: ")
		l, _, _ := strings.Cut(stderr[i:], "\n")
		fr := core.Frames(stderr)
		if fr == "" {
			return nil, "worker died: " + stderr
		}
		return &core.Violation{Prop: prop, Class: "process died: " + l, Msg: "the process died: " + l + "\n" + fr}, ""
	}
	if len(stderr) > 3000 {
		stderr = stderr[:3000]
	}
	return nil, fmt.Sprintf("worker ended with code %d: %s", code, stderr)
}

// client is a worker that executes requests.
type client struct {
	bin, dict, prop string
	cmd             *exec.Cmd
	in              io.WriteCloser
	out             *bufio.Reader
	err             *bytes.Buffer
	starts          int
}

func (c *client) start() error {
	c.cmd = exec.Command(c.bin, "-serve", "-dict", c.dict)
	c.cmd.Env = workerEnv()
	var err error
	if c.in, err = c.cmd.StdinPipe(); err != nil {
		return err
	}
	p, err := c.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	c.out = bufio.NewReaderSize(p, 1<<20)
	c.err = &bytes.Buffer{}
	c.cmd.Stderr = c.err
	c.starts++
	return c.cmd.Start()
}

func (c *client) stop() {
	if c.cmd != nil {
		c.in.Close()
		c.cmd.Process.Kill()
		c.cmd.Wait()
		c.cmd = nil
	}
}

var errStuck = errors.New("a run does not end (watchdog)")

// do executes a request. If the process dies of it, the last reply describes
// the death.
func (c *client) do(q *proto.Request) ([]proto.Reply, error) {
	if c.cmd == nil {
		if err := c.start(); err != nil {
			return nil, err
		}
	}
	b, err := json.Marshal(q)
	if err != nil {
		return nil, err
	}
	stuck := false
	cmd := c.cmd
	t := time.AfterFunc(180*time.Second, func() { stuck = true; cmd.Process.Kill() })
	defer t.Stop()
	_, werr := c.in.Write(append(b, '\n'))
	var line []byte
	if werr == nil {
		line, err = c.out.ReadBytes('\n')
	} else {
		err = werr
	}
	if err == nil {
		var r []proto.Reply
		err = json.Unmarshal(line, &r)
		return r, err
	}
	c.in.Close()
	c.cmd.Wait()
	code := c.cmd.ProcessState.ExitCode()
	txt := c.err.String()
	c.cmd = nil
	if stuck {
		return nil, errStuck
	}
	v, h := death(c.prop, code, txt)
	if v == nil {
		return []proto.Reply{{Harness: h}}, nil
	}
	return []proto.Reply{{Viol: []core.Violation{*v}}}, nil
}

// one executes items and returns the outcome of the last.
func (c *client) one(items []proto.Item, verbose, sched bool) (*proto.Reply, error) {
	r, err := c.do(&proto.Request{Prop: c.prop, Items: items, Verbose: verbose, Sched: sched})
	if err != nil {
		return nil, err
	}
	if len(r) == 0 {
		return nil, errors.New("empty reply")
	}
	return &r[len(r)-1], nil
}

// fresh is one in a process of its own.
func (c *client) fresh(items []proto.Item, verbose, sched bool) (*proto.Reply, error) {
	c.stop()
	r, err := c.one(items, verbose, sched)
	c.stop()
	return r, err
}

// has finds a violation of the class ("" for any) of the client's property.
func (c *client) has(r *proto.Reply, class string) *core.Violation {
	if r == nil || r.Invalid != "" {
		return nil
	}
	for i := range r.Viol {
		if r.Viol[i].Prop == c.prop && (class == "" || r.Viol[i].Class == class) {
			return &r.Viol[i]
		}
	}
	return nil
}
