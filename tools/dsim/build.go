package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type buildInfo struct {
	Bin       string
	Packages  []string
	Points    int
	Files     int
	Patches   int
	GoVersion string
}

const modForego = "github.com/Aize-Public/forego"

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1")
	return c
}

func out(c *exec.Cmd) (string, error) {
	var e bytes.Buffer
	c.Stderr = &e
	b, err := c.Output()
	if err != nil {
		return "", fmt.Errorf("%s: %v\n%s", strings.Join(c.Args, " "), err, e.String())
	}
	return strings.TrimSpace(string(b)), nil
}

// build compiles the harness against /repo's working tree into dir/sim.
func build(verif, dir string, race bool) (*buildInfo, error) {
	info := &buildInfo{}
	goroot, err := out(goCmd(verif, "env", "GOROOT"))
	if err != nil {
		return nil, err
	}
	info.GoVersion, _ = out(goCmd(verif, "env", "GOVERSION"))
	overlay := map[string]string{}
	ovdir := filepath.Join(dir, "overlay")
	put := func(target string, data []byte) error {
		p := filepath.Join(ovdir, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "__"))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		overlay[target] = p
		return os.WriteFile(p, data, 0o644)
	}
	patched := map[string]string{}
	for _, p := range patches {
		f := filepath.Join(goroot, "src", p.file)
		s, ok := patched[f]
		if !ok {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			s = string(b)
		}
		if n := strings.Count(s, p.old); n != 1 {
			return nil, fmt.Errorf("patch anchor in %s found %d times: %q", p.file, n, p.old)
		}
		patched[f] = strings.Replace(s, p.old, p.new, 1)
		info.Patches++
	}
	for f, s := range patched {
		if err := put(f, []byte(s)); err != nil {
			return nil, err
		}
	}
	for t, src := range added {
		b, err := os.ReadFile(filepath.Join(verif, "tools/patch", src))
		if err != nil {
			return nil, err
		}
		if err := put(filepath.Join(goroot, "src", t), b); err != nil {
			return nil, err
		}
	}
	hdir := filepath.Join(verif, "harness")
	// A private copy of go.mod/go.sum, so nothing committed is rewritten.
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(hdir, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(dir, "h"+f[2:]), b, 0o644); err != nil {
			return nil, err
		}
	}
	modfile := "-modfile=" + filepath.Join(dir, "h.mod")
	c := goCmd(hdir, "list", modfile, "-deps", "-json=ImportPath,Dir,GoFiles,Standard,Module", ".")
	var e bytes.Buffer
	c.Stderr = &e
	b, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, e.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	haveX := false
	for dec.More() {
		var p struct {
			ImportPath, Dir string
			GoFiles         []string
			Standard        bool
		}
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		if p.Standard {
			continue
		}
		forego := p.ImportPath == modForego || strings.HasPrefix(p.ImportPath, modForego+"/")
		if !forego && p.ImportPath != "golang.org/x/net/websocket" {
			continue
		}
		if forego {
			info.Packages = append(info.Packages, strings.TrimPrefix(p.ImportPath, modForego+"/"))
		}
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, n, err := instrument(full)
			if err != nil {
				return nil, err
			}
			if n == 0 && forego {
				continue
			}
			info.Points += n
			info.Files++
			if !forego {
				// Module-cache files cannot be overlaid: build from a private copy.
				xnet := filepath.Join(dir, "xnet")
				if !haveX {
					haveX = true
					mod, err := os.ReadFile(filepath.Join(p.Dir, "..", "go.mod"))
					if err != nil {
						return nil, err
					}
					if err := os.MkdirAll(filepath.Join(xnet, "websocket"), 0o755); err != nil {
						return nil, err
					}
					if err := os.WriteFile(filepath.Join(xnet, "go.mod"), mod, 0o644); err != nil {
						return nil, err
					}
					hm, err := os.OpenFile(filepath.Join(dir, "h.mod"), os.O_APPEND|os.O_WRONLY, 0)
					if err != nil {
						return nil, err
					}
					fmt.Fprintf(hm, "\nreplace golang.org/x/net => %s\n", xnet)
					hm.Close()
				}
				if err := os.WriteFile(filepath.Join(xnet, "websocket", f), src, 0o644); err != nil {
					return nil, err
				}
				continue
			}
			if err := put(full, src); err != nil {
				return nil, err
			}
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": overlay})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return nil, err
	}
	info.Bin = filepath.Join(dir, "sim")
	if err := compile(verif, dir, info.Bin, race); err != nil {
		return nil, err
	}
	return info, nil
}

func compile(verif, dir, bin string, race bool) error {
	args := []string{"build", "-modfile=" + filepath.Join(dir, "h.mod"), "-overlay", filepath.Join(dir, "overlay.json"), "-tags", "faketime", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, ".")
	c := goCmd(filepath.Join(verif, "harness"), args...)
	if o, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("go build: %v\n%s", err, o)
	}
	return nil
}

// buildRace adds dir/sim-race to a finished build.
func buildRace(verif, dir string) error {
	return compile(verif, dir, filepath.Join(dir, "sim-race"), true)
}
