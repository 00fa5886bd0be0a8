package main

// Native replay: the same harness, compiled by the Go compiler together with /repo's
// current source, run with the concrete inputs the solver found.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
)

type Native struct {
	dir   string
	repo  string
	hdir  string
	names []string
	mu    sync.Mutex
	bins  map[bool]string
	errs  map[bool]error
	count int
}

func NewNative(repo, hdir string, names []string) (*Native, error) {
	dir, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		return nil, err
	}
	return &Native{dir: dir, repo: repo, hdir: hdir, names: names, bins: map[bool]string{}, errs: map[bool]error{}}, nil
}

func (n *Native) Close() { os.RemoveAll(n.dir) }

func goroot() string {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return runtime.GOROOT()
	}
	return strings.TrimSpace(string(out))
}

func insertFirst(src []byte, header string, stmt string) ([]byte, error) {
	i := bytes.Index(src, []byte("\n"+header))
	if i < 0 {
		return nil, fmt.Errorf("no %q in the standard library source", header)
	}
	j := bytes.IndexByte(src[i+1:], '\n') + i + 1
	return append(append(append([]byte{}, src[:j+1]...), []byte("\t"+stmt+"\n")...), src[j+1:]...), nil
}

func (n *Native) overlay() (string, error) {
	root := goroot()
	rep := map[string]string{}
	ov, err := overlayFiles(n.repo, n.hdir)
	if err != nil {
		return "", err
	}
	for k, v := range ov {
		rep[k] = v
	}
	rep[filepath.Join(n.repo, "zz_verif/h/replay_test.go")] = filepath.Join(n.hdir, "native/replay_test.go")
	// table of harnesses
	var sb strings.Builder
	sb.WriteString("package h\n\nvar table = map[string]func(){\n")
	for _, x := range n.names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", x, x)
	}
	sb.WriteString("}\n")
	tf := filepath.Join(n.dir, "table_test.go")
	if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(n.repo, "zz_verif/h/table_test.go")] = tf
	// package net with in-memory sockets
	rep[filepath.Join(root, "src/net/zz_verif.go")] = filepath.Join(n.hdir, "native/net_verif.go")
	a, err := os.ReadFile(filepath.Join(root, "src/net/udpsock.go"))
	if err != nil {
		return "", err
	}
	a = regexp.MustCompile(`type UDPConn struct \{\n\tconn\n\}`).ReplaceAll(a, []byte("type UDPConn struct {\n\tconn\n\tvf VerifConn\n}"))
	a = bytes.Replace(a, []byte("return &UDPConn{conn{fd}}"), []byte("return &UDPConn{conn: conn{fd}}"), 1)
	p := filepath.Join(n.dir, "udpsock.go")
	os.WriteFile(p, a, 0o644)
	rep[filepath.Join(root, "src/net/udpsock.go")] = p
	b, err := os.ReadFile(filepath.Join(root, "src/net/udpsock_posix.go"))
	if err != nil {
		return "", err
	}
	for _, h := range [][2]string{
		{"func (c *UDPConn) readFrom(", "if c.vf != nil { return c.vf.ReadFrom(b) }"},
		{"func (c *UDPConn) readFromAddrPort(", "if c.vf != nil { return c.vread(b) }"},
		{"func (c *UDPConn) readMsg(", "if c.vf != nil { n, addr, err = c.vread(b); return }"},
		{"func (c *UDPConn) writeTo(", "if c.vf != nil { if addr == nil { return 0, errMissingAddress }; return c.vf.WriteTo(b, addr) }"},
		{"func (c *UDPConn) writeToAddrPort(", "if c.vf != nil { if !addr.IsValid() { return 0, errMissingAddress }; return c.vf.WriteTo(b, UDPAddrFromAddrPort(addr)) }"},
		{"func (c *UDPConn) writeMsg(", "if c.vf != nil { if addr == nil { return 0, 0, errMissingAddress }; n, err = c.vf.WriteTo(b, addr); return }"},
		{"func (c *UDPConn) writeMsgAddrPort(", "if c.vf != nil { if !addr.IsValid() { return 0, 0, errMissingAddress }; n, err = c.vf.WriteTo(b, UDPAddrFromAddrPort(addr)); return }"},
		{"func (sl *sysListener) listenUDP(", "if VerifListen != nil { return verifListenUDP(sl.network, laddr) }"},
	} {
		if b, err = insertFirst(b, h[0], h[1]); err != nil {
			return "", err
		}
	}
	p = filepath.Join(n.dir, "udpsock_posix.go")
	os.WriteFile(p, b, 0o644)
	rep[filepath.Join(root, "src/net/udpsock_posix.go")] = p
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	f := filepath.Join(n.dir, "overlay.json")
	return f, os.WriteFile(f, js, 0o644)
}

// modfile copies go.mod and go.sum so that no command touches the repository's.
func modfile(repo, dir string) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			if f == "go.sum" && os.IsNotExist(err) {
				continue
			}
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, f), b, 0o644); err != nil {
			return "", err
		}
	}
	return filepath.Join(dir, "go.mod"), nil
}

func goEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOFLAGS", "GOPROXY", "GOWORK", "CGO_ENABLED", "GODEBUG":
			continue
		}
		env = append(env, e)
	}
	return append(env, append([]string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"}, extra...)...)
}

// Bin builds the replay binary (with the race detector if asked).
func (n *Native) Bin(race bool) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if b, ok := n.bins[race]; ok {
		return b, n.errs[race]
	}
	b, err := n.build(race)
	n.bins[race], n.errs[race] = b, err
	return b, err
}

func (n *Native) build(race bool) (string, error) {
	ov, err := n.overlay()
	if err != nil {
		return "", err
	}
	mf, err := modfile(n.repo, n.dir)
	if err != nil {
		return "", err
	}
	name := "replay.bin"
	args := []string{"test", "-c", "-vet=off", "-tags", "verifnative,netgo", "-overlay", ov, "-modfile", mf}
	env := goEnv("CGO_ENABLED=0")
	if race {
		name = "replay-race.bin"
		args = append(args, "-race")
		env = goEnv("CGO_ENABLED=1")
	}
	bin := filepath.Join(n.dir, name)
	args = append(args, "-o", bin, "./zz_verif/h")
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = env
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("building the replay binary: %v\n%s", err, out)
	}
	return bin, nil
}

type ReplayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Where    string            `json:"where"`
	Thorough bool              `json:"thorough"`
	Inputs   map[string]uint64 `json:"inputs"`
	Dec      []int32           `json:"decisions,omitempty"`
	Sched    []string          `json:"schedule,omitempty"`
	Native   string            `json:"native_result,omitempty"`
	How      string            `json:"confirmed_by,omitempty"`
}

type NativeResult struct {
	Kind string // done, fail, assume, panic, deadlock, hang, race, error
	Msg  string
	Obs  []string
	Out  string
	Miss int
}

func (n *Native) Run(rf *ReplayFile, race bool, timeout time.Duration) NativeResult {
	bin, err := n.Bin(race)
	if err != nil {
		return NativeResult{Kind: "error", Msg: err.Error()}
	}
	n.mu.Lock()
	n.count++
	f := filepath.Join(n.dir, fmt.Sprintf("in%d.json", n.count))
	n.mu.Unlock()
	js, _ := json.Marshal(rf)
	if err := os.WriteFile(f, js, 0o644); err != nil {
		return NativeResult{Kind: "error", Msg: err.Error()}
	}
	defer os.Remove(f)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestReplay$", "-test.timeout", "0")
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VS_REPLAY="+f, "GOTRACEBACK=all", "GOMEMLIMIT=2GiB")
	var out bytes.Buffer
	cmd.Stdout = &limitW{b: &out}
	cmd.Stderr = cmd.Stdout
	cmd.WaitDelay = time.Second
	rerr := cmd.Run()
	res := NativeResult{Kind: "error", Out: out.String()}
	end := ""
	for _, l := range strings.Split(res.Out, "\n") {
		if i := strings.Index(l, "@@"); i >= 0 {
			l = l[i+2:]
			switch {
			case strings.HasPrefix(l, "OBS "):
				res.Obs = append(res.Obs, l[4:])
			case strings.HasPrefix(l, "MISSING "):
				res.Miss++
			case l == "DONE":
				end = "done"
			case l == "ASSUME":
				end = "assume"
			case strings.HasPrefix(l, "FAIL "):
				end = "fail"
				res.Msg = l[5:]
			}
		}
	}
	switch {
	case race && strings.Contains(res.Out, "WARNING: DATA RACE") && raceInRepo(res.Out):
		res.Kind = "race"
		res.Msg = "the race detector reports a data race"
	case end != "":
		res.Kind = end
	case ctx.Err() != nil:
		res.Kind = "hang"
		res.Msg = fmt.Sprintf("no end after %v", timeout)
	case strings.Contains(res.Out, "deadlock:") || strings.Contains(res.Out, "all goroutines are asleep"):
		res.Kind = "deadlock"
		res.Msg = "all goroutines are blocked"
	case strings.Contains(res.Out, "panic: ") || strings.Contains(res.Out, "fatal error: ") || strings.Contains(res.Out, "level=fatal") || strings.Contains(res.Out, "level=panic"):
		res.Kind = "panic"
		for _, l := range strings.Split(res.Out, "\n") {
			if i := strings.Index(l, "panic: "); i >= 0 {
				res.Msg = l[i:]
				break
			}
			if strings.Contains(l, "fatal error: ") {
				res.Msg = l
				break
			}
		}
	default:
		res.Msg = fmt.Sprint(rerr)
	}
	return res
}

// raceInRepo: at least one of the two racing stacks goes through the code under test.
func raceInRepo(out string) bool {
	for _, blk := range strings.Split(out, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		for _, l := range strings.Split(blk, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "github.com/jsimonetti/go-artnet") && !strings.HasPrefix(l, "github.com/jsimonetti/go-artnet/zz_verif") {
				return true
			}
		}
	}
	return false
}

type limitW struct {
	b *bytes.Buffer
}

func (w *limitW) Write(p []byte) (int, error) {
	if w.b.Len() < 4<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}
