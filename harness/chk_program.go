package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register(&Check{ID: "C32", Level: "exploration", Quick: 48, Thorough: 300, Worlds: 1, Parallel: 1, NoShared: true, Run: runC32,
		Rule:        "a response of the program, or the way it ended; identified by the environment, the request and the answer",
		Assumptions: []string{"the program's port 8080 is free on this machine while the check runs"}})
}

const programAddr = "127.0.0.1:8080"

// program is the server as it is shipped.
type program struct {
	c      *Case
	cmd    *exec.Cmd
	stderr *bytes.Buffer
	ended  chan error
}

func startProgram(c *Case, cwd string, env ...string) *program {
	for i := 0; ; i++ {
		l, err := net.Listen("tcp", "0.0.0.0:8080")
		if err == nil {
			l.Close()
			break
		}
		if i > 600 {
			panic("port 8080 is taken: " + err.Error())
		}
		time.Sleep(100 * time.Millisecond)
	}
	p := &program{c: c, stderr: &bytes.Buffer{}, ended: make(chan error, 1)}
	p.cmd = exec.Command(os.Getenv("VERIF_PROGRAM"))
	p.cmd.Dir = cwd
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "WD=") && !strings.HasPrefix(e, "GTS=") && !strings.HasPrefix(e, "PWD=") {
			p.cmd.Env = append(p.cmd.Env, e)
		}
	}
	p.cmd.Env = append(append(p.cmd.Env, "GOTRACEBACK=all"), env...)
	p.cmd.Stderr = p.stderr
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() { p.ended <- p.cmd.Wait() }()
	for i := 0; i < 1200; i++ {
		conn, err := net.DialTimeout("tcp", programAddr, time.Second)
		if err == nil {
			conn.Close()
			return p
		}
		select {
		case err := <-p.ended:
			if strings.Contains(p.stderr.String(), "address already in use") {
				panic("port 8080 is taken")
			}
			c.Fail("the program ended when started with %v: %v\n%s", env, err, clipText(p.stderr.String(), 3000))
			return nil
		case <-time.After(50 * time.Millisecond):
		}
	}
	if strings.Contains(p.stderr.String(), "address already in use") {
		panic("port 8080 is taken")
	}
	c.Fail("the program does not listen when started with %v\n%s", env, clipText(p.stderr.String(), 3000))
	p.kill()
	return nil
}

func (p *program) kill() {
	p.cmd.Process.Kill()
	<-p.ended
}

func (p *program) get(target string) Resp {
	client := &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	resp, err := client.Get("http://" + programAddr + target)
	if err != nil {
		return Resp{Panic: err.Error()}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return Resp{Panic: err.Error()}
	}
	return Resp{Status: resp.StatusCode, Type: resp.Header.Get("Content-Type"), Body: string(b)}
}

// interrupt asks the program to stop and gives the way it ended.
func (p *program) interrupt() (string, bool) {
	must(p.cmd.Process.Signal(os.Interrupt))
	return p.wait()
}

func (p *program) wait() (string, bool) {
	select {
	case err := <-p.ended:
		if err != nil {
			return err.Error(), true
		}
		return "", true
	case <-time.After(60 * time.Second):
		p.kill()
		return "still running a minute after the interrupt", false
	}
}

// refused waits until the program takes no new connections.
func refused() bool {
	for i := 0; i < 600; i++ {
		conn, err := net.DialTimeout("tcp", programAddr, time.Second)
		if err != nil {
			return true
		}
		conn.Close()
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

func runC32(shared *World, c *Case) {
	dir := filepath.Join(shared.Dir, fmt.Sprintf("case-%d", c.Index))
	must(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	// the current directory and the two stores, each in a place of its own when named
	cwd := filepath.Join(dir, "cwd")
	must(os.MkdirAll(filepath.Join(cwd, "goldlord-midas"), 0755))
	page := fmt.Sprintf("<html>start %d</html>", c.Index)
	must(os.WriteFile(filepath.Join(cwd, "goldlord-midas", "index.html"), []byte(page), 0644))
	w := newWorldR(filepath.Join(dir, "world"), c.Index, newRng("program", seed, c.Index))
	pr := stdProf()
	pr.Inline, pr.Roles, pr.Ctxs = 50, [2]int{1, 2}, [2]int{1, 4}
	f := GenFiling(c.Rng, w, w.newID(), pr)
	f.WriteAny(w.folder(f.ID), c.Rng)
	late := c.Index/4%3 == 2
	if late {
		// whether a register of names that comes late is read is left open
		os.Remove(filepath.Join(w.WD, "names.json"))
	}
	// what a correct server says
	s := w.fresh(c)
	first := s.ask(folderURL(f.ID))
	if first == nil || !first[0].ok() {
		c.Fail("catalog: %v", first)
		s.stop()
		return
	}
	var targets []string
	for _, rest := range append([]string{""}, targetsOf(f, first[0].Body)...) {
		targets = append(targets, folderURL(f.ID)+rest)
	}
	targets = append(targets, folderURL("none"), netURL(f.ID, "none"))
	var want []Resp
	for _, t := range targets {
		want = append(want, s.ask(t)...)
	}
	s.stop()
	if len(want) != len(targets) {
		return
	}
	var env []string
	wdAt, gtsAt := filepath.Join(cwd, "wd"), filepath.Join(cwd, "gts")
	mode := ""
	if c.Index%2 == 1 {
		wdAt = filepath.Join(dir, "one", "wd")
		env = append(env, "WD="+filepath.Join(dir, "one"))
		mode += "WD "
	} else if c.Pct(30) {
		env = append(env, "WD=")
	}
	if c.Index/2%2 == 1 {
		gtsAt = filepath.Join(dir, "two", "gts")
		env = append(env, "GTS="+filepath.Join(dir, "two"))
		mode += "GTS "
	} else if c.Pct(30) {
		env = append(env, "GTS=")
	}
	fill := func() {
		copyTree(w.WD, wdAt)
		copyTree(w.GTS, gtsAt)
	}
	if !late {
		fill()
	}
	decoys(c, dir, wdAt, gtsAt, f.ID)
	p := startProgram(c, cwd, env...)
	if p == nil {
		return
	}
	if late {
		mode += "late "
		if resp := p.get(folderURL(f.ID)); resp.Status < 400 {
			c.Fail("a folder that is not there is answered %s", resp)
		}
		fill()
	}
	judge := func(i int, resp Resp) {
		c.Eval()
		c.Distinct(mode, i, resp.Status, resp.Body)
		if resp.Status != want[i].Status || want[i].ok() && resp.Body != want[i].Body {
			c.Fail("started with %v: %s: %s", env, targets[i], firstDiff(want[i].Body, resp.Body+resp.Panic))
		}
	}
	for i, t := range targets {
		judge(i, p.get(t))
	}
	if resp := p.get("/"); !resp.ok() || resp.Body != page {
		c.Fail("start page: %s", resp)
	}
	c.Count("answers", len(targets))
	how := pick(c.Rng, []string{"idle", "busy", "busy", "busy"})
	if how == "idle" {
		if end, _ := p.interrupt(); end != "" {
			c.Fail("interrupted when idle, the program ended with %s\n%s", end, clipText(p.stderr.String(), 2000))
		}
		c.Eval()
		c.Count("interrupts when idle", 1)
		return
	}
	// A request is in progress when the interrupt comes: it waits for a pipe. What an
	// interrupt is to blame for, the same request without an interrupt does not show.
	const tries = 3
	bad, why := 0, ""
	for k := 0; k < tries; k++ {
		ok, msg := inProgress(c, p, w, wdAt, f, fmt.Sprintf("held-%d", k), true)
		c.Eval()
		if ok {
			break
		}
		bad, why = bad+1, msg
		if p = startProgram(c, cwd, env...); p == nil {
			return
		}
	}
	c.Count("interrupts with a request in progress", 1)
	if bad < tries {
		return
	}
	for k := 0; k < tries; k++ {
		if ok, msg := inProgress(c, p, w, wdAt, f, fmt.Sprintf("quiet-%d", k), false); !ok {
			c.Count("pipes that do not serve", 1)
			c.Sample("undecided: %s", msg)
			p.kill()
			return
		}
	}
	p.kill()
	c.Fail("%s\n%s", why, clipText(p.stderr.String(), 2000))
}

// decoys puts another filing where the program must not look.
func decoys(c *Case, dir, wdAt, gtsAt, id string) {
	for _, d := range []string{filepath.Join(dir, "cwd", "folders", id), filepath.Join(dir, "one", "folders", id), filepath.Join(dir, "cwd", "wd", "folders", id), filepath.Join(dir, "two", "wd", "folders", id)} {
		if strings.HasPrefix(d, wdAt+string(filepath.Separator)) {
			continue
		}
		must(os.MkdirAll(d, 0755))
		must(os.WriteFile(filepath.Join(d, "_"), []byte(`{"Entry":"decoy.xbrl"}`), 0644))
		must(os.WriteFile(filepath.Join(d, "decoy.xbrl"), []byte(`<xbrl xmlns="`+nsXBRLI+`"/>`), 0644))
	}
}

// inProgress makes a request that is in progress while the program is interrupted.
func inProgress(c *Case, p *program, w *World, wdAt string, f *Filing, id string, signal bool) (bool, string) {
	at := filepath.Join(wdAt, "folders", id)
	copyTree(w.folder(f.ID), at)
	entry := filepath.Join(at, "_")
	text, err := os.ReadFile(entry)
	must(err)
	must(os.Rename(entry, entry+".kept"))
	must(syscall.Mkfifo(entry, 0644))
	var resp Resp
	var wg sync.WaitGroup
	wg.Add(1)
	answered := make(chan bool)
	go func() {
		defer wg.Done()
		resp = p.get(folderURL(id))
		close(answered)
	}()
	// opening the pipe succeeds once the request has opened it
	var pipe *os.File
	for pipe == nil {
		select {
		case <-answered:
			os.Remove(entry)
			if signal {
				p.kill()
			}
			return false, fmt.Sprintf("the request did not wait: %s", resp)
		default:
		}
		fd, err := syscall.Open(entry, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
		if err == nil {
			pipe = os.NewFile(uintptr(fd), entry)
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	must(os.Rename(entry+".kept", entry))
	down := true
	if signal {
		must(p.cmd.Process.Signal(os.Interrupt))
		down = refused()
	}
	pipe.Write(text)
	pipe.Close()
	wg.Wait()
	msg := ""
	if !down {
		msg = "after an interrupt the program goes on taking connections"
	}
	if !resp.ok() {
		msg = fmt.Sprintf("a request in progress when the program was interrupted was answered %s", resp)
	}
	if signal {
		if end, _ := p.wait(); end != "" && msg == "" {
			msg = "interrupted with a request in progress, the program ended with " + end
		}
	}
	return msg == "", msg
}
