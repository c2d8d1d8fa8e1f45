package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
)

// Go command used for everything: a fixed toolchain if it is there
var goBin = func() string {
	const pinned = `/opt/veriftools/go1.27.3/bin/go`
	if _, err := os.Stat(pinned); err == nil {
		return pinned
	}
	return `go`
}()

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		switch strings.SplitN(e, `=`, 2)[0] {
		case `GOFLAGS`, `GOTOOLCHAIN`, `GOPROXY`, `GORACE`, `GOMAXPROCS`, `GODEBUG`, `GOEXPERIMENT`, `GOWORK`, `CGO_ENABLED`, `GOOS`, `GOARCH`:
			continue
		}
		env = append(env, e)
	}
	return append(env, `GOFLAGS=-mod=mod`, `GOTOOLCHAIN=local`, `GOPROXY=off`, `GOWORK=off`, `GOSUMDB=off`)
}

func runGo(dir string, args ...string) (string, error) {
	c := exec.Command(goBin, args...)
	c.Dir = dir
	c.Env = goEnv()
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		return out.String(), fmt.Errorf("go %s: %v\n%s", strings.Join(args, ` `), err, errb.String())
	}
	return out.String(), nil
}

func trouble(format string, args ...interface{}) {
	fmt.Printf("ERROR: "+format+"\n", args...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		trouble("%v", err)
	}
}

type build struct {
	plain, race string
	sites       int
	repoHash    string
}

func hashTree(h io.Writer, root string, match func(p string) bool) {
	var files []string
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if p != root && (strings.HasPrefix(fi.Name(), `.`) || fi.Name() == `seeded`) {
				return filepath.SkipDir
			}
			return nil
		}
		if match(p) {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		fmt.Fprintf(h, "%s %d\n", f, len(b))
		_, _ = h.Write(b)
	}
}

// makeBuild builds the two workers (without and with the race detector) from the current tree of the repository.
func makeBuild(root, repo string) *build {
	base := filepath.Join(root, `.build`)
	must(os.MkdirAll(base, 0o755))
	lock, err := os.OpenFile(filepath.Join(base, `lock`), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	must(syscall.Flock(int(lock.Fd()), syscall.LOCK_EX))
	defer lock.Close()

	h := sha256.New()
	hashTree(h, repo, func(p string) bool {
		return strings.HasSuffix(p, `.go`) && !strings.HasSuffix(p, `_test.go`) || strings.HasSuffix(p, `go.mod`) || strings.HasSuffix(p, `go.sum`)
	})
	repoHash := hex.EncodeToString(h.Sum(nil))[:16]
	for _, d := range []string{`sim`, `harness`, `cmd`} {
		hashTree(h, filepath.Join(root, d), func(p string) bool { return strings.HasSuffix(p, `.go`) })
	}
	dir := filepath.Join(base, `b-`+hex.EncodeToString(h.Sum(nil))[:16])
	b := &build{plain: filepath.Join(dir, `worker`), race: filepath.Join(dir, `worker.race`), repoHash: repoHash}
	if bs, err := os.ReadFile(filepath.Join(dir, `ok`)); err == nil {
		_, _ = fmt.Sscan(string(bs), &b.sites)
		return b
	}
	// remove builds of other trees
	old, _ := filepath.Glob(filepath.Join(base, `b-*`))
	if len(old) > 12 {
		sort.Slice(old, func(i, j int) bool {
			a, _ := os.Stat(old[i])
			b, _ := os.Stat(old[j])
			return a != nil && b != nil && a.ModTime().Before(b.ModTime())
		})
		for _, o := range old[:len(old)-12] {
			_ = os.RemoveAll(o)
		}
	}
	must(os.RemoveAll(dir))
	must(os.MkdirAll(dir, 0o755))

	// module file: the repository at hand replaces the module
	gm, err := os.ReadFile(filepath.Join(root, `go.mod`))
	must(err)
	gm = regexp.MustCompile(`=> /repo\b`).ReplaceAll(gm, []byte(`=> `+repo))
	modfile := filepath.Join(dir, `go.mod`)
	must(os.WriteFile(modfile, gm, 0o644))
	if gs, err := os.ReadFile(filepath.Join(root, `go.sum`)); err == nil {
		must(os.WriteFile(filepath.Join(dir, `go.sum`), gs, 0o644))
	}

	// instrument
	out, err := runGo(root, `run`, `./cmd/instr`, `-repo`, repo, `-out`, dir)
	must(err)
	n := 0
	_, _ = fmt.Sscanf(out[strings.Index(out, `files, `)+7:], "%d", &n)
	b.sites = n
	ovFile := filepath.Join(dir, `overlay.json`)
	var ov struct{ Replace map[string]string }
	ob, err := os.ReadFile(ovFile)
	must(err)
	must(json.Unmarshal(ob, &ov))
	runtimeOverlay(dir, ov.Replace)
	ob, err = json.MarshalIndent(ov, ``, ` `)
	must(err)
	must(os.WriteFile(ovFile, ob, 0o644))

	errs := make(chan error, 2)
	for _, race := range []bool{false, true} {
		race := race
		go func() {
			args := []string{`build`, `-modfile`, modfile, `-overlay`, ovFile, `-ldflags=-checklinkname=0`}
			bin := b.plain
			if race {
				args = append(args, `-race`)
				bin = b.race
			}
			args = append(args, `-o`, bin, `./harness`)
			_, err := runGo(root, args...)
			errs <- err
		}()
	}
	must(<-errs)
	must(<-errs)
	must(os.WriteFile(filepath.Join(dir, `ok`), []byte(fmt.Sprint(n)), 0o644))
	return b
}

// runtimeOverlay puts the randomness of Go maps behind a seam and takes sync.Pool out of the game: a pool orders its users
// (which would hide races from the detector) and drops values at random in race builds.
func runtimeOverlay(dir string, ov map[string]string) {
	gr, err := runGo(dir, `env`, `GOROOT`)
	must(err)
	gr = strings.TrimSpace(gr)
	edit := func(rel string, min int, rx, repl string) {
		src := filepath.Join(gr, `src`, rel)
		from := src
		if o, ok := ov[src]; ok {
			from = o
		}
		bs, err := os.ReadFile(from)
		must(err)
		r := regexp.MustCompile(rx)
		if c := len(r.FindAllIndex(bs, -1)); c < min {
			trouble("the Go runtime source %s is not as expected: %q matches %d times", src, rx, c)
		}
		bs = r.ReplaceAll(bs, []byte(repl))
		dst := filepath.Join(dir, `goroot`, rel)
		must(os.MkdirAll(filepath.Dir(dst), 0o755))
		must(os.WriteFile(dst, bs, 0o644))
		ov[src] = dst
	}
	edit(`sync/pool.go`, 1, `func \(p \*Pool\) Put\(x any\) \{\n`, "func (p *Pool) Put(x any) {\n\tif true {\n\t\treturn\n\t}\n")
	edit(`sync/pool.go`, 1, `func \(p \*Pool\) Get\(\) any \{\n`, "func (p *Pool) Get() any {\n\tif true {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n")
	edit(`internal/runtime/maps/map.go`, 4, `\brand\(\)`, `simRand()`)
	edit(`internal/runtime/maps/table.go`, 2, `\brand\(\)`, `simRand()`)
	edit(`internal/runtime/maps/runtime_alg.go`, 2, `bootstrapRand\(\)`, `0x9e3779b97f4a7c15`)
	f := filepath.Join(dir, `goroot`, `simrand.go`)
	must(os.WriteFile(f, []byte(`package maps

import _ "unsafe"

// SimState is the state of the simulator's source of map randomness, 0 when it is off.
//
//go:linkname SimState
var SimState uint64

func simRand() uint64 {
	if SimState == 0 {
		// Maps that are created when the process starts are the same in every process
		return 0x9e3779b97f4a7c15
	}
	SimState += 0x9e3779b97f4a7c15
	z := SimState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
`), 0o644))
	ov[filepath.Join(gr, `src`, `internal/runtime/maps/simrand.go`)] = f
}
