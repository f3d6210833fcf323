package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() { auxes["serve"] = auxServe }

// auxServe serves an existing world in a process of its own: every line of input is a list of
// requests to be made at the same time, every line of output the list of their responses.
func auxServe(args []string) {
	out := bufio.NewWriter(os.Stdout)
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	w := attach(args[0])
	w.start()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var targets []string
		must(json.Unmarshal(line, &targets))
		resps := make([]Resp, len(targets))
		if len(targets) == 1 {
			resps[0] = w.get(targets[0])
		} else {
			var wg sync.WaitGroup
			gate := make(chan bool)
			for i := range targets {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-gate
					resps[i] = w.get(targets[i])
				}(i)
			}
			close(gate)
			wg.Wait()
		}
		b, err := json.Marshal(resps)
		must(err)
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

// attach finds a world that another process has set up.
func attach(dir string) *World {
	return &World{Dir: dir, WD: filepath.Join(dir, "wd"), GTS: filepath.Join(dir, "gts")}
}

// Server is a freshly started server process of a world.
type Server struct {
	c      *Case
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	dead   bool
}

func (w *World) fresh(c *Case, env ...string) *Server {
	s := &Server{c: c, stderr: &bytes.Buffer{}}
	s.cmd = exec.Command("/proc/self/exe", "aux", "serve", w.Dir)
	s.cmd.Dir = w.Dir
	s.cmd.Env = append(append(os.Environ(), "GOTRACEBACK=all"), env...)
	s.cmd.Stderr = s.stderr
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	s.in, err = s.cmd.StdinPipe()
	must(err)
	o, err := s.cmd.StdoutPipe()
	must(err)
	s.out = bufio.NewReaderSize(o, 1<<20)
	must(s.cmd.Start())
	return s
}

// ask makes requests at the same time. It returns nil when the server is gone.
func (s *Server) ask(targets ...string) []Resp {
	if s.dead {
		return nil
	}
	b, _ := json.Marshal(targets)
	s.in.Write(append(b, '\n'))
	stalled := false
	timer := time.AfterFunc(140*time.Second, func() {
		stalled = true
		s.cmd.Process.Signal(syscall.SIGQUIT)
		time.AfterFunc(10*time.Second, func() { s.cmd.Process.Kill() })
	})
	line, err := s.out.ReadBytes('\n')
	timer.Stop()
	if err != nil {
		s.dead = true
		werr := s.cmd.Wait()
		text := s.stderr.String()
		if i := strings.LastIndex(text, "\npanic: "); i > 0 {
			text = text[i:]
		}
		if !blame("\n"+text, stalled) {
			panic(fmt.Sprintf("server process ended (%v): %s", werr, text))
		}
		s.c.Res.Stalled = s.c.Res.Stalled || stalled
		s.c.Fail("the server process ended (%v) while answering %q:\n%s", werr, targets, clipText(text, 3500))
		return nil
	}
	var resps []Resp
	must(json.Unmarshal(line, &resps))
	return resps
}

func (s *Server) stop() {
	if !s.dead {
		s.dead = true
		s.in.Close()
		s.cmd.Wait()
	}
}

var _ = strconv.Itoa
