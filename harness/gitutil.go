package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// gitRepo is a bare scratch repository that is removed after the case. It is
// independent of any configuration of the user or the system.
type gitRepo struct {
	dir    string
	config []string
	tz     string
	mayDie bool // git may end by a signal, with code -1
}

func newGitRepo(objectFormat string) *gitRepo {
	dir, err := os.MkdirTemp("", "rgit")
	if err != nil {
		panic(err)
	}
	for _, d := range []string{"objects", "refs/heads", "info"} {
		if err := os.MkdirAll(filepath.Join(dir, d), 0o755); err != nil {
			panic(err)
		}
	}
	cfg := "[core]\n\tbare = true\n\trepositoryformatversion = 0\n"
	if objectFormat == "sha256" {
		cfg = "[core]\n\tbare = true\n\trepositoryformatversion = 1\n[extensions]\n\tobjectformat = sha256\n"
	}
	for name, content := range map[string]string{"HEAD": "ref: refs/heads/main\n", "config": cfg} {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(content), 0o644); err != nil {
			panic(err)
		}
	}
	return &gitRepo{dir: dir, tz: "UTC"}
}

func (g *gitRepo) remove() { os.RemoveAll(g.dir) }

func (g *gitRepo) env() []string {
	return []string{
		"PATH=" + os.Getenv("PATH"), "HOME=" + g.dir, "XDG_CONFIG_HOME=" + g.dir, "GIT_DIR=" + g.dir,
		"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_TERMINAL_PROMPT=0", "GIT_PAGER=cat", "LC_ALL=C.UTF-8", "TZ=" + g.tz,
		"GIT_AUTHOR_NAME=x", "GIT_AUTHOR_EMAIL=x@x", "GIT_COMMITTER_NAME=x", "GIT_COMMITTER_EMAIL=x@x", "TMPDIR=" + g.dir,
	}
}

// try runs git and returns its output, error output and exit code.
func (g *gitRepo) try(stdin string, env []string, args ...string) (string, string, int) {
	cmd := exec.Command("git", append(append([]string{}, g.config...), args...)...)
	cmd.Dir = g.dir
	cmd.Env = append(g.env(), env...)
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if err == nil {
		return out.String(), errb.String(), 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() < 0 && !g.mayDie {
			panic(fmt.Sprintf("git %v: %v", args, err))
		}
		return out.String(), errb.String(), ee.ExitCode()
	}
	panic(fmt.Sprintf("running git: %v", err))
}

// run runs git and expects success.
func (g *gitRepo) run(stdin string, args ...string) string {
	out, stderr, code := g.try(stdin, nil, args...)
	if code != 0 {
		panic(fmt.Sprintf("git %v: exit code %d: %s", args, code, clip(stderr, 500)))
	}
	return out
}

// fastImport runs git fast-import. marks maps mark numbers to object ids.
func (g *gitRepo) fastImport(stream string) map[int]string {
	mf := filepath.Join(g.dir, "marks")
	g.run(stream, "fast-import", "--quiet", "--date-format=raw-permissive", "--export-marks="+mf)
	b, err := os.ReadFile(mf)
	if err != nil {
		panic(err)
	}
	marks := map[int]string{}
	for _, l := range strings.Split(string(b), "\n") {
		var n int
		var id string
		if _, err := fmt.Sscanf(l, ":%d %s", &n, &id); err == nil {
			marks[n] = id
		}
	}
	return marks
}

func importData(s string) string { return fmt.Sprintf("data %d\n%s\n", len(s), s) }

// importPath quotes a path for fast-import.
func importPath(s string) string { return gitQuoteAlways(s) }

func gitQuoteAlways(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, ch := range []byte(s) {
		if ch < 0x20 || ch >= 0x7f || ch == '"' || ch == '\\' {
			fmt.Fprintf(&b, `\%03o`, ch)
		} else {
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}
