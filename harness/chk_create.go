//go:build check_C18

package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"ecksbee.com/telefacts/pkg/serializables"
)

func init() {
	register(&Check{ID: "C18", Level: "exploration", Quick: 8000, Thorough: 80000, Run: runC18,
		Rule:        "one attempt to create a folder in a history of concurrent and repeated attempts; identified by the keys attempted, how often and how concurrently",
		Assumptions: []string{"keys and entry names are valid UTF-8", "entries are read back after the attempts have returned"}})
	auxes["create"] = auxCreate
}

type attempt struct {
	Key, Entry, Note string
	ID, Err          string
	Exists           bool
}

func (a *attempt) run() {
	id, err := serializables.NewFolder(a.Key, serializables.Underscore{Entry: a.Entry, Note: a.Note})
	a.ID = id
	if err != nil {
		a.Err = err.Error()
		a.Exists = errors.Is(err, os.ErrExist)
	}
}

// together runs the attempts at the same time.
func together(batch []*attempt) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, a := range batch {
		wg.Add(1)
		go func(a *attempt) {
			defer wg.Done()
			<-start
			a.run()
		}(a)
	}
	close(start)
	wg.Wait()
}

// auxCreate is another process creating folders: create WD, attempts on standard input.
func auxCreate(args []string) {
	serializables.WorkingDirectoryPath = args[0]
	var batch []*attempt
	must(json.NewDecoder(os.Stdin).Decode(&batch))
	together(batch)
	must(json.NewEncoder(os.Stdout).Encode(batch))
}

// alike gives a key with others that some notion of equality takes for it.
func alike(r *Rng, key string) []string {
	at := r.Intn(len(key))
	for key[at]&0xC0 == 0x80 {
		at--
	}
	return []string{key, key + "/", "/" + key, "./" + key, strings.Replace(key, "/", "//", 1) + "", strings.Replace(key, "/", "/./", 1) + "", "x/../" + key,
		strings.ReplaceAll(key, "/", "\\"), strings.ReplaceAll(key, "-", ""), strings.ReplaceAll(key, "-", "_"), strings.TrimLeft(key, "0"), "0" + key,
		strings.ToUpper(key), strings.ToLower(key), key + "\n", "\t" + key, key + " ", key + "\x00", key + "#", key + ".", url.QueryEscape(key), url.PathEscape(key),
		strings.ReplaceAll(key, "é", "e\u0301"), strings.ReplaceAll(key, "é", "e"), key[:at], key[at:], key + key, key[:at] + "\u200b" + key[at:], "\ufeff" + key}
}

var oddKeys = []string{"a", "A", "a ", " a", "a/b", "../a", "..", ".", "_", "0000950170-22-000796", "é", "é", "a\x00", "a\n", "key", "kEY", strings.Repeat("k", 5000), strings.Repeat("k", 5001), "​", "http://x.example/?a=b&c"}

var entryNames = []string{"inst.xml", "a-20211231.htm", "x.xbrl", "", "with space.xml", "quote\".xml", "back\\slash.xml", "<tag>&amp;.xml", "é.xml", "新.xhtml", "tab\t.xml", "new\nline.xml", " .xml", strings.Repeat("long", 300) + ".xml", "../escape.xml", "{\"Entry\":\"x\"}"}

func runC18(w *World, c *Case) {
	r := c.Rng
	wd := filepath.Join(w.Dir, "create")
	must(os.MkdirAll(filepath.Join(wd, "folders"), 0755))
	defer os.RemoveAll(wd)
	old := serializables.WorkingDirectoryPath
	defer func() { serializables.WorkingDirectoryPath = old }()
	serializables.WorkingDirectoryPath = wd
	runtime.GOMAXPROCS(pick(r, []int{1, 2, 4, 8}))

	keys := sample(r, oddKeys, r.In(1, 4))
	if r.Pct(60) {
		// keys that are almost the same
		near := alike(r, pick(r, []string{"2021/filing", "0000950170-22-000796", "Company Inc.", "a/b/c", "résumé", "http://x.example/f?id=1"}))
		keys = append(keys[:r.Intn(len(keys)+1)], sample(r, near, r.In(2, 4))...)
	}
	if r.Pct(60) {
		keys = append(keys, "")
	}
	var all []*attempt
	shape := ""
	for round := r.In(1, 4); round > 0; round-- {
		var batch []*attempt
		for k := pick(r, []int{1, 2, 3, 8, 24}); k > 0; k-- {
			batch = append(batch, &attempt{Key: pick(r, keys), Entry: fmt.Sprintf("%d-%s", len(all)+len(batch), pick(r, entryNames)), Note: pick(r, entryNames)})
		}
		others := round%2 == 0 && r.Pct(25) && len(batch) > 1
		shape += fmt.Sprint(len(batch), others, ";")
		if others {
			// half of them from another process
			half := len(batch) / 2
			in, _ := json.Marshal(batch[:half])
			cmd := exec.Command(os.Args[0], "aux", "create", wd)
			cmd.Stdin = strings.NewReader(string(in))
			cmd.Stderr = os.Stderr
			done := make(chan []byte)
			go func() {
				out, err := cmd.Output()
				must(err)
				done <- out
			}()
			together(batch[half:])
			var back []*attempt
			must(json.Unmarshal(<-done, &back))
			copy(batch, back)
			c.Count("batches of two processes", 1)
		} else {
			together(batch)
		}
		all = append(all, batch...)
		if !c.judgeCreation(all) {
			return
		}
	}
	c.Distinct(keys, shape)
	c.Count("attempts", len(all))
	c.Sample("%d keys, attempts %s", len(keys), shape)
}

func (c *Case) judgeCreation(all []*attempt) bool {
	byKey := map[string][]*attempt{}
	for _, a := range all {
		c.Eval()
		byKey[a.Key] = append(byKey[a.Key], a)
	}
	owner := map[string]string{} // folder -> who made it
	for _, key := range keysOf(byKey) {
		var made []*attempt
		for _, a := range byKey[key] {
			if a.Err == "" {
				made = append(made, a)
				if a.ID == "" {
					c.Fail("creating a folder under key %q succeeds without naming it", clipText(key, 40))
					return false
				}
				if prev, ok := owner[a.ID]; ok {
					c.Fail("folder %s was created twice: for %s and for key %q", a.ID, prev, clipText(key, 40))
					return false
				}
				owner[a.ID] = fmt.Sprintf("key %q", clipText(key, 40))
			}
		}
		if key == "" {
			if len(made) != len(byKey[key]) {
				c.Fail("%d of %d attempts with an empty key succeeded: %s", len(made), len(byKey[key]), toJSON(byKey[key]))
				return false
			}
		} else {
			if len(made) != 1 {
				c.Fail("%d of %d attempts with key %q succeeded", len(made), len(byKey[key]), clipText(key, 40))
				return false
			}
			for _, a := range byKey[key] {
				if a == made[0] {
					continue
				}
				if !a.Exists {
					c.Fail("an attempt under the taken key %q fails with %q, which does not say that it exists", clipText(key, 40), a.Err)
					return false
				}
				if a.ID != made[0].ID {
					c.Fail("an attempt under the taken key %q names folder %q, not %q", clipText(key, 40), a.ID, made[0].ID)
					return false
				}
			}
		}
		for _, a := range made {
			got, err := serializables.GetEntryFileName(a.ID)
			if err != nil || got != a.Entry {
				c.Fail("entry of the folder created under key %q reads back as %q (%v), recorded was %q", clipText(key, 40), clipText(got, 60), err, clipText(a.Entry, 60))
				return false
			}
		}
	}
	return true
}
