package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/h"
	"verifharness/peersim"
)

// ---- F01: storage that fails

// startMounted runs the crawler with a small file system of its own as the
// torrent directory, seen through view.
func startMounted(dir, opts string, c Conf) (p *Proc, view string, ok bool) {
	os.Mkdir(filepath.Join(dir, "torrent"), 0755)
	c.Wrap = []string{"/bin/sh", "-c", `mount -t tmpfs -o ` + opts + ` none torrent || exit 77; exec "$0" "$@"`}
	c.Attr = &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
		Pdeathsig:   syscall.SIGKILL,
	}
	// can it be done here?
	t := launchConf(dir, Conf{Wrap: []string{"/bin/sh", "-c", `mount -t tmpfs -o ` + opts + ` none torrent`}, Attr: c.Attr})
	if t == nil {
		return nil, "", false
	}
	<-t.done
	if t.err != nil {
		return nil, "", false
	}
	p = startIn(dir, c)
	view = fmt.Sprintf("/proc/%d/root%s", p.cmd.Process.Pid, filepath.Join(dir, "torrent"))
	if _, err := os.ReadDir(view); err != nil {
		p.Kill()
		return nil, "", false
	}
	return p, view, true
}

func f01fault(round int) {
	R := h.R
	r := h.Rand("fault", round)
	dir := newDir()
	tdir := filepath.Join(dir, "torrent")
	conf := Conf{Fetchers: []int{20, 4}[round%2], Level: []string{"Error", "Info"}[r.Intn(2)]}
	srv := peerAt("127.0.0.1", 0)
	defer srv.Close()
	job1 := func(max int) *job {
		j := &job{meta: h.Bytes(r, 20+r.Intn(max)), sources: 1, good: true, kind: "good"}
		j.hash = peersim.Hash(j.meta)
		srv.Plan(j.hash, multi(r, j.meta))
		return j
	}
	path := func(j *job) string { return filepath.Join(tdir, fmt.Sprintf("%x.torrent", j.hash)) }
	stored := func(j *job) bool {
		b, err := os.ReadFile(path(j))
		return err == nil && string(b) == string(j.meta)
	}
	done := func(js []*job) {
		h.Wait(30*time.Second, func() bool {
			for _, j := range js {
				l := srv.Logs(j.hash)
				if len(l) < j.sources {
					return false
				}
				for _, lg := range l {
					if !lg.Done() {
						return false
					}
				}
			}
			return true
		})
		time.Sleep(150 * time.Millisecond)
	}
	// must be stored, the fault being over
	must := func(p *Proc, j *job, when string) bool {
		announceAll(p, []*job{j}, srv, false)
		if h.Wait(5*time.Second, func() bool { return stored(j) || p.exited() }) {
			return p.Alive(when)
		}
		if again(p, srv, j, stored) && p.Alive(when) {
			R.Violate("not-stored", when+": a served metadata is not stored", nil)
		}
		return false
	}
	leftovers := func(good []*job, when string) {
		names := map[string]bool{}
		for _, j := range good {
			names[fmt.Sprintf("%x.torrent", j.hash)] = true
		}
		es, _ := os.ReadDir(tdir)
		for _, e := range es {
			if !names[e.Name()] {
				R.Violate("left-over", fmt.Sprintf("%s: a file %q remains that belongs to no successful fetch", when, e.Name()), nil)
				return
			}
		}
	}
	kind := []string{"small device", "directory is a file", "few inodes", "directory removed", "name is a directory", "name holds something else"}[round%6]
	var p *Proc
	switch kind {
	case "small device", "few inodes":
		opts := fmt.Sprintf("size=%dk", 100+r.Intn(300))
		if kind == "few inodes" {
			opts = fmt.Sprintf("size=8m,nr_inodes=%d", 3+r.Intn(6))
		}
		var ok bool
		if p, tdir, ok = startMounted(dir, opts, conf); !ok {
			R.Count("faults_that_cannot_be_made_here", 1)
			return
		}
		defer p.Kill()
		for pass := 0; pass < 2; pass++ {
			var js []*job
			for i := 0; i < 24; i++ {
				js = append(js, job1([]int{2000, 60000, 200000}[r.Intn(3)]))
			}
			halt := make(chan struct{})
			var w sync.WaitGroup
			w.Add(1)
			go func() {
				defer w.Done()
				for {
					select {
					case <-halt:
						return
					default:
					}
					checkDir(tdir, "on a "+kind)
					time.Sleep(time.Millisecond)
				}
			}()
			announceAll(p, js, srv, false)
			done(js)
			close(halt)
			w.Wait()
			if !p.Alive("storing on a " + kind) {
				return
			}
			n := checkDir(tdir, "on a "+kind)
			R.Count("files_on_failing_storage", int64(n))
			R.Count("stores_that_failed", int64(len(js)-n))
			leftovers(js, "on a "+kind)
			for _, j := range js {
				os.Remove(path(j))
			}
			if es, _ := os.ReadDir(tdir); len(es) > 0 {
				return // reported
			}
			j := job1(3000)
			if !must(p, j, "after the "+kind+" had room again") {
				return
			}
			os.Remove(path(j))
		}
	case "directory is a file":
		os.WriteFile(tdir, []byte("not a directory"), 0644)
		p = startIn(dir, conf)
		defer p.Kill()
		js := []*job{job1(50000), job1(300), job1(20000)}
		announceAll(p, js, srv, false)
		done(js)
		if !p.Alive("storing where the directory is a file") {
			return
		}
		if b, err := os.ReadFile(tdir); err != nil || string(b) != "not a directory" {
			R.Violate("overwritten", "a file named torrent in the place of the directory was changed", nil)
		}
		os.Remove(tdir)
		must(p, job1(30000), "after the file in the directory's place was removed")
	case "directory removed":
		p = startIn(dir, conf)
		defer p.Kill()
		for i := 0; i < 4; i++ {
			if !must(p, job1(30000), "with the directory removed in between") {
				return
			}
			if strings.HasPrefix(tdir, h.Scratch) {
				os.RemoveAll(tdir)
			}
		}
	case "name is a directory":
		p = startIn(dir, conf)
		defer p.Kill()
		a, b := job1(30000), job1(30000)
		os.MkdirAll(path(a), 0755)
		os.WriteFile(filepath.Join(path(a), "x"), []byte("x"), 0644)
		announceAll(p, []*job{a}, srv, false)
		done([]*job{a})
		if !must(p, b, "after a fetch that could not be stored") {
			return
		}
		leftovers([]*job{a, b}, "after a fetch that could not be stored")
	case "name holds something else":
		p = startIn(dir, conf)
		defer p.Kill()
		os.MkdirAll(tdir, 0755)
		for _, old := range []string{"", "d4:name", string(h.Bytes(r, 50000))} {
			j := job1(20000)
			os.WriteFile(path(j), []byte(old), 0644)
			if !must(p, j, fmt.Sprintf("with a file of %d other bytes under the name already", len(old))) {
				return
			}
		}
		// what is stored already is fetched again and stays whole
		j := job1(200000)
		if !must(p, j, "at first") {
			return
		}
		halt := make(chan struct{})
		var w sync.WaitGroup
		w.Add(1)
		go func() {
			defer w.Done()
			for {
				select {
				case <-halt:
					return
				default:
				}
				if !stored(j) {
					R.Violate("incomplete-visible", "a file stored already is not there, or not whole, while the same metadata is fetched again", nil)
					return
				}
			}
		}()
		for i := 0; i < 15; i++ {
			srv.Take(j.hash)
			srv.Plan(j.hash, multi(r, j.meta))
			announceAll(p, []*job{{meta: j.meta, hash: j.hash, sources: 3}}, srv, false)
		}
		time.Sleep(300 * time.Millisecond)
		close(halt)
		w.Wait()
	}
	p.Alive("storing with the fault: " + kind)
	R.Eval(fmt.Sprintf("fault|%s|%d", kind, round/6))
	R.Count("storage_faults", 1)
}
