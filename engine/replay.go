package main

// Native replay: the harness package is compiled with the real code of /repo and the real
// standard library (plus hooks for process exit, executable path, clock, HTTP and terminal)
// and run on the solver's assignment inside a scratch chroot in a user namespace of its own.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Replayer struct {
	dir     string // scratch
	bin     string
	ready   chan struct{}
	err     error
	buildS  float64
	mu      sync.Mutex
	tries   map[string]int
	ok      map[string]bool
	skipped map[string]int
	runs    int
}

type NativeResult struct {
	Failed  []string          `json:"failed"`
	Panic   string            `json:"panic"`
	Assume  string            `json:"assume"`
	Covers  []string          `json:"covers"`
	Obs     map[string]string `json:"observations"`
	Done    bool              `json:"done"`
	Exit    string            `json:"exit"`
	Missing []string          `json:"missing"`
	raw     string
}

func goEnv(key string) string {
	out, err := exec.Command("go", "env", key).Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}

func baseEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOSUMDB", "GOTOOLCHAIN", "CGO_ENABLED", "GOWORK", "GO111MODULE", "GOROOT":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "GO111MODULE=on")
}

type patch struct {
	file string
	re   string
	repl string
}

// overlays writes the overlay description; native adds the hooks of the replay build.
func overlays(verif, dir string, native bool, mainSrc, mainPath string) (string, error) {
	rep := map[string]string{}
	put := func(orig, src string) error {
		f := filepath.Join(dir, strings.ReplaceAll(strings.TrimPrefix(orig, "/"), "/", "_"))
		if err := os.WriteFile(f, []byte(src), 0644); err != nil {
			return err
		}
		rep[orig] = f
		return nil
	}
	if native {
		root := goEnv("GOROOT")
		ps := []patch{
			{root + "/src/os/proc.go", `(?m)^func Exit\(code int\) \{\n`, "// VerifExit intercepts process exit in replays.\nvar VerifExit func(code int)\n\nfunc Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}\n"},
			{root + "/src/os/executable.go", `(?m)^func Executable\(\) \(string, error\) \{\n`, "// VerifExecutable overrides the path in replays.\nvar VerifExecutable string\n\nfunc Executable() (string, error) {\n\tif VerifExecutable != \"\" {\n\t\treturn VerifExecutable, nil\n\t}\n"},
			{root + "/src/time/time.go", `(?m)^func Now\(\) Time \{\n`, "// VerifNow overrides the clock in replays.\nvar VerifNow func() Time\n\nfunc Now() Time {\n\tif VerifNow != nil {\n\t\treturn VerifNow()\n\t}\n"},
			{root + "/src/net/http/client.go", `(?m)^func \(c \*Client\) do\(req \*Request\) \(retres \*Response, reterr error\) \{\n`, "// VerifDo answers requests in replays.\nvar VerifDo func(c *Client, req *Request) (*Response, error)\n\nfunc (c *Client) do(req *Request) (retres *Response, reterr error) {\n\tif VerifDo != nil {\n\t\treturn VerifDo(c, req)\n\t}\n"},
		}
		ps = append(ps, patch{root + "/src/net/dial.go", `(?m)^func \(d \*Dialer\) DialContext\(ctx context\.Context, network, address string\) \(Conn, error\) \{\n`, "// VerifDial sees every connection in replays.\nvar VerifDial func(d *Dialer, ctx context.Context) error\n\nfunc (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif VerifDial != nil {\n\t\treturn nil, VerifDial(d, ctx)\n\t}\n"})
		op := func(file, sig, name, path, fail string) patch {
			return patch{root + "/src/os/" + file, `(?m)^` + regexp.QuoteMeta(sig) + ` \{`, sig + " {\n\tif VerifOp != nil {\n\t\tif err := VerifOp(\"" + name + "\", " + path + "); err != nil {\n\t\t\treturn " + fail + "\n\t\t}\n\t}\n"}
		}
		ps = append(ps,
			patch{root + "/src/os/file.go", `(?m)^func \(f \*File\) ReadFrom\(r io\.Reader\) \(n int64, err error\) \{\n`, "func (f *File) ReadFrom(r io.Reader) (n int64, err error) {\n\tif VerifOp != nil {\n\t\treturn genericReadFrom(f, r)\n\t}\n"},
			op("file.go", "func (f *File) Write(b []byte) (n int, err error)", "write", "f.name", "0, err"),
			op("file.go", "func Mkdir(name string, perm FileMode) error", "mkdir", "name", "err"),
			op("file.go", "func Rename(oldpath, newpath string) error", "rename", "newpath", "err"),
			op("file.go", "func Chmod(name string, mode FileMode) error", "chmod", "name", "err"),
			op("file.go", "func (f *File) Chmod(mode FileMode) error", "chmod", "f.name", "err"),
			op("file_unix.go", "func Truncate(name string, size int64) error", "truncate", "name", "err"),
			op("file_unix.go", "func Remove(name string) error", "remove", "name", "err"),
			op("file_unix.go", "func Link(oldname, newname string) error", "link", "newname", "err"),
			op("file_unix.go", "func Symlink(oldname, newname string) error", "symlink", "newname", "err"),
			op("file_posix.go", "func (f *File) Truncate(size int64) error", "truncate", "f.name", "err"),
			op("path.go", "func RemoveAll(path string) error", "removeall", "path", "err"),
			patch{root + "/src/os/removeall_at.go", `(?m)^\terr := Remove\(path\)\n`, "\thook := VerifOp\n\tVerifOp = nil\n\terr := Remove(path)\n\tVerifOp = hook\n"},
			patch{root + "/src/os/file.go", `(?m)^func OpenFile\(name string, flag int, perm FileMode\) \(\*File, error\) \{\n`,
				"// VerifOp sees every change of the file system in replays.\nvar VerifOp func(op, path string) error\n\nfunc OpenFile(name string, flag int, perm FileMode) (*File, error) {\n\tif VerifOp != nil && flag != O_RDONLY {\n\t\tif err := VerifOp(\"open\", name); err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t}\n"},
		)
		patched := map[string]string{}
		var order []string
		for _, p := range ps {
			if _, ok := patched[p.file]; !ok {
				b, err := os.ReadFile(p.file)
				if err != nil {
					return "", err
				}
				patched[p.file] = string(b)
				order = append(order, p.file)
			}
			b := patched[p.file]
			loc := regexp.MustCompile(p.re).FindStringIndex(b)
			if loc == nil {
				return "", fmt.Errorf("hook point not found in %s: %s", p.file, p.re)
			}
			patched[p.file] = b[:loc[0]] + p.repl + b[loc[1]:]
		}
		for _, f := range order {
			if err := put(f, patched[f]); err != nil {
				return "", err
			}
		}
		if err := put(mainPath, mainSrc); err != nil {
			return "", err
		}
	}
	for path, src := range appSources("/repo/1pass-app") {
		if err := put(filepath.Join(verif, "harness", "zz_app", path), src); err != nil {
			return "", err
		}
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	name := "overlay_sym.json"
	if native {
		name = "overlay_native.json"
	}
	f := filepath.Join(dir, name)
	return f, os.WriteFile(f, j, 0644)
}

func newReplayer(verif, dir, pkg string, harnesses func() []string) *Replayer {
	r := &Replayer{dir: dir, ready: make(chan struct{}), tries: map[string]int{}, ok: map[string]bool{}, skipped: map[string]int{}}
	go func() {
		defer close(r.ready)
		t0 := time.Now()
		names, err := harnessNames(filepath.Join(verif, "harness", pkg))
		if err != nil {
			r.err = err
			return
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\t\"verif/harness/sym\"\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", harnessMod+"/"+pkg)
		for _, n := range names {
			fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", n, n)
		}
		sb.WriteString("\t})\n}\n")
		ov, err := overlays(verif, dir, true, sb.String(), filepath.Join(verif, "harness", "zz_replay", "main.go"))
		if err != nil {
			r.err = err
			return
		}
		bin := filepath.Join(dir, "replay")
		cmd := exec.Command("go", "build", "-tags", "vreplay", "-overlay", ov, "-o", bin, harnessMod+"/zz_replay")
		cmd.Dir = filepath.Join(verif, "harness")
		cmd.Env = baseEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("replay build: %v\n%s", err, out)
			return
		}
		r.bin = bin
		r.buildS = time.Since(t0).Seconds()
	}()
	return r
}

func harnessNames(dir string) ([]string, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	re := regexp.MustCompile(`(?m)^func (Verif[A-Za-z0-9_]*)\(\) \{`)
	var names []string
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			return nil, err
		}
		for _, m := range re.FindAllSubmatch(b, -1) {
			names = append(names, string(m[1]))
		}
	}
	sort.Strings(names)
	return names, nil
}

// Run executes one assignment natively.
func (r *Replayer) Run(c *Candidate, thorough bool) (*NativeResult, error) {
	<-r.ready
	if r.err != nil {
		return nil, r.err
	}
	r.mu.Lock()
	r.runs++
	r.mu.Unlock()
	root, err := os.MkdirTemp(r.dir, "vroot")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(root)
	for _, d := range []string{"tmp", "bin", "verifio"} {
		if err := os.Mkdir(filepath.Join(root, d), 0777); err != nil {
			return nil, err
		}
	}
	if err := copyFile(r.bin, filepath.Join(root, "verifio", "replay")); err != nil {
		return nil, err
	}
	j, _ := json.Marshal(map[string]interface{}{"harness": c.Harness, "inputs": c.Inputs, "thorough": thorough})
	if err := os.WriteFile(filepath.Join(root, "verifio", "in.json"), j, 0644); err != nil {
		return nil, err
	}
	var out bytes.Buffer
	var cmd *exec.Cmd
	for i := 0; ; i++ {
		cmd = exec.Command("/verifio/replay", "/verifio/in.json", "/verifio/out.json")
		cmd.Dir = "/"
		cmd.Env = []string{"HOME=/home/user", "TZ=UTC", "TERM=xterm", "PATH=/bin"}
		cmd.SysProcAttr = &syscall.SysProcAttr{
			Chroot:      root,
			Cloneflags:  syscall.CLONE_NEWUSER,
			UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
			GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
			Pdeathsig:   syscall.SIGKILL,
			Setpgid:     true,
		}
		cmd.Stdout = &out
		cmd.Stderr = &out
		cmd.Stdin = nil
		err = cmd.Start()
		if err == nil {
			break
		}
		// a process forked meanwhile may hold the copy open for a moment
		if i >= 200 || !errors.Is(err, syscall.ETXTBSY) {
			return nil, err
		}
		time.Sleep(time.Duration(1+i) * time.Millisecond)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(30 * time.Second):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		if c.Hang {
			return &NativeResult{Failed: []string{"the run ends"}}, nil
		}
		return &NativeResult{Assume: "timeout"}, nil
	}
	b, rerr := os.ReadFile(filepath.Join(root, "verifio", "out.json"))
	if rerr != nil {
		s := out.String()
		if len(s) > 800 {
			s = s[:800]
		}
		return nil, fmt.Errorf("no result (%v): %s", err, s)
	}
	res := &NativeResult{}
	if err := json.Unmarshal(b, res); err != nil {
		return nil, err
	}
	res.raw = out.String()
	return res, nil
}

func copyFile(a, b string) error {
	if os.Link(a, b) == nil {
		return nil
	}
	d, err := os.ReadFile(a)
	if err != nil {
		return err
	}
	return os.WriteFile(b, d, 0755)
}

// appSources gives the files of the program's main package as an importable package: the
// package clause and the name of main are the only things changed.
func appSources(dir string) map[string]string {
	r := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		t, err := parser.ParseFile(fs, f, b, 0)
		if err != nil || t.Name.Name != "main" {
			continue
		}
		edit := []struct {
			pos  token.Pos
			n    int
			text string
		}{{t.Name.Pos(), len("main"), "zz_app"}}
		for _, d := range t.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				edit = append(edit, struct {
					pos  token.Pos
					n    int
					text string
				}{fd.Name.Pos(), len("main"), "Main"})
			}
		}
		out, at := "", 0
		for _, e := range edit {
			o := fs.Position(e.pos).Offset
			out += string(b[at:o]) + e.text
			at = o + e.n
		}
		r[filepath.Base(f)] = out + string(b[at:])
	}
	return r
}
