// verif:rewrite help/utils tick,maps
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/ahKevinXy/go-web-tools/zzverif/rt"
	"github.com/ahKevinXy/go-web-tools/zzverif/vh"
)

func shell(cmd string) (out string, err error, ok bool) {
	var b *bytes.Buffer
	vh.Do("ShellExec", func() { b, err = utils.ShellExec(cmd) })
	rt.Tracef("%.200s -> %v", cmd, err)
	if err == nil {
		vh.Check(b != nil, "no-output", "success without an output buffer: %.200s", cmd)
		out = b.String()
	}
	return out, err, err == nil
}

type piece struct {
	cmd      string
	out, err string
	code     int  // exit status of the piece
	ends     bool // the shell ends here
}

func rep(c string, n int) string { return strings.Repeat(c, n) }

func pieces() []piece {
	return []piece{
		{cmd: "true"},
		{cmd: "false", code: 1},
		{cmd: "printf 'a b\\n'", out: "a b\n"},
		{cmd: "printf err >&2", err: "err"},
		{cmd: "echo '$HOME \"q\"'; echo \"x   y\"", out: "$HOME \"q\"\nx   y\n"},
		{cmd: "(exit 3)", code: 3},
		{cmd: "echo out; echo oops >&2; false", out: "out\n", err: "oops\n", code: 1},
		{cmd: "exit 0", ends: true},
		{cmd: "echo fatal >&2; exit 7", err: "fatal\n", code: 7, ends: true},
		{cmd: "for i in 1 2 3; do\n echo $i\ndone", out: "1\n2\n3\n"},
		{cmd: "cat <<EOF\nhere\n doc\nEOF", out: "here\n doc\n"},
		{cmd: "# comment"},
		{cmd: "echo 漢字 | tr -d '\\n'", out: "漢字"},
		{cmd: "x=5\necho $((x+1))", out: "6\n"},
		{cmd: "kill -9 $$", code: 137, ends: true},
		{cmd: "exec 2>/dev/null; no_such_command_here", code: 127},
		{cmd: "printf 'nul\\000tab\\t'", out: "nul\x00tab\t"},
	}
}

func scripts() {
	ps := pieces()
	n := 1 + rt.Choose(vh.D(2, 3))
	sep := []string{"\n", "; "}[rt.Choose(2)]
	tail := []string{"", "\n", "\n\n", " "}[rt.Choose(4)]
	cmd, out, errs, code := "", "", "", 0
	ended := false
	mute := false
	for i := 0; i < n; i++ {
		p := ps[rt.Choose(len(ps))]
		if i > 0 {
			if sep == "; " && (strings.Contains(cmd, "#") || strings.HasSuffix(cmd, "EOF")) {
				rt.Prune()
			}
			cmd += sep
		}
		cmd += p.cmd
		if ended {
			continue
		}
		out += p.out
		if !mute {
			errs += p.err
		}
		if strings.HasPrefix(p.cmd, "exec 2>") {
			mute = true
		}
		if p.cmd != "# comment" {
			code = p.code
		}
		ended = p.ends
	}
	if strings.HasSuffix(cmd, "EOF") && tail == " " {
		rt.Prune()
	}
	if code == 137 && sep == "; " {
		// the shell dies while it runs a line: what the line printed before is out
	}
	got, err, ok := shell(cmd + tail)
	vh.Check(ok == (code == 0), "status", "the script %q exits with %d but the result is %v", cmd, code, err)
	if ok {
		vh.Check(got == out, "output", "the script %q gives %q, want %q", cmd, got, out)
	} else {
		vh.Check(err.Error() == errs, "error-text", "the script %q fails with the text %q, want %q", cmd, err, errs)
	}
}

// texts that end in the middle of something: nothing but the text itself is run. A shell that reads the text from a
// file says what it does, with a final newline or without.
func ends() {
	l := []string{"echo a\\", "echo a \\", "\\", "cat <<E\nhi", "cat <<E\nhi\n", "cat <<E\n", "cat <<E; false\nhi", "echo a &&", "echo a ||", "false &&", "false ||", "echo a |", "echo 'a", "echo \"a", "echo `echo a",
		"(echo a", "{ echo a", "if true; then echo a", "for i in 1 2; do echo $i", "echo $(echo a", "f() {", "f()", "# c\\", "echo a #\\", "case x in", "echo a;", "!", "x=", "echo ${x", "echo >", "cat <", "time", "alias e=echo", "e() { echo f; }", "trap 'echo t' EXIT", "trap 'echo t' EXIT; false", "set -e; false; true", "set -n", "exec 3</dev/null", "true; #", "(false)", "false; :", "false & wait $!"}
	first := []string{"", "echo first\n", "echo first; false\n", "set -u\n", "alias exit=false\n"}[rt.Choose(5)]
	text := first + l[rt.Choose(len(l))] + []string{"", "\n", "\n\n", " "}[rt.Choose(4)]
	var outs []string
	var oks []bool
	for _, end := range []string{"", "\n"} {
		os.WriteFile("script", []byte(text+end), 0644)
		f, err := os.Open("script")
		if err != nil {
			panic(err)
		}
		c := exec.Command("sh")
		c.Stdin = f
		out, err := c.Output()
		f.Close()
		outs, oks = append(outs, string(out)), append(oks, err == nil)
	}
	os.Remove("script")
	got, err, ok := shell(text)
	vh.Check(ok == oks[0] || ok == oks[1], "status", "the text %q: error %v, but a shell that reads it from a file says success=%v", text, err, oks[0])
	if ok {
		vh.Check(oks[0] && got == outs[0] || oks[1] && got == outs[1], "output", "the text %q gives %q, a shell that reads it from a file %q", text, got, outs)
	}
}

// every exit status
func statuses() {
	c := rt.Choose(256)
	k := rt.Choose(3)
	cmd := []string{"exit %d", "sh -c 'exit %d'", "f() { return %d; }; f"}[k]
	_, err, ok := shell(fmt.Sprintf(cmd, c))
	vh.Check(ok == (c == 0), "status", "exit status %d gives %v", c, err)
}

// output of any size on both streams, in either order
func amounts() {
	sz := []int{0, 1, 4096, 65535, 65536, 65537, 200000, 1 << 20, vh.D(5<<20+1, 70<<20)}
	a, b := sz[rt.Choose(len(sz))], sz[rt.Choose(len(sz))]
	order := rt.Choose(3)
	fail := rt.Choose(2)
	o := fmt.Sprintf("head -c %d /dev/zero | tr '\\000' 'o'", a)
	e := fmt.Sprintf("head -c %d /dev/zero | tr '\\000' 'e' >&2", b)
	cmd := []string{o + "\n" + e, e + "\n" + o, o + " & " + e + "\nwait"}[order]
	cmd += fmt.Sprintf("\nexit %d", fail)
	got, err, ok := shell(cmd)
	vh.Check(ok == (fail == 0), "status", "exit status %d gives %.100v", fail, err)
	if ok {
		vh.Check(got == rep("o", a), "output", "%d of %d bytes of output arrived", len(got), a)
	} else {
		vh.Check(err.Error() == rep("e", b), "error-text", "%d of %d bytes of error text arrived", len(err.Error()), b)
	}
}

// long command texts
func texts() {
	n := []int{1, 1000, 65536, 70000, 300000}[rt.Choose(5)]
	k := rt.Choose(3)
	var cmd, want string
	switch k {
	case 0: // one long line
		want = rep("x", n)
		cmd = "printf '" + want + "'"
	case 1: // many lines
		for i := 0; i < n/100+1; i++ {
			cmd += fmt.Sprintf("printf '%d '\n", i)
			want += fmt.Sprintf("%d ", i)
		}
	case 2: // a long here document
		want = rep("line of text\n", n/13+1)
		cmd = "cat <<'END'\n" + want + "END"
	}
	got, err, ok := shell(cmd)
	vh.Check(ok, "status", "a text of %d bytes fails: %v", len(cmd), err)
	vh.Check(got == want, "output", "a text of %d bytes gives %d bytes, want %d", len(cmd), len(got), len(want))
}

// calls do not share state
func sequence() {
	n := 3
	for i := 0; i < n; i++ {
		switch rt.Choose(4) {
		case 0:
			_, _, ok := shell("V=1; export V; cd /; umask 0; false")
			vh.Check(!ok, "status", "false succeeds")
		case 1:
			got, _, ok := shell("echo [$V] $(pwd -P)")
			wd, _ := os.Getwd()
			vh.Check(ok && got == "[] "+wd+"\n", "shared", "an earlier call shows: %q", got)
		case 2:
			got, _, ok := shell("echo x; echo y >&2")
			vh.Check(ok && got == "x\n", "output", "the output is %q", got)
		case 3:
			_, err, ok := shell("echo x; echo y >&2; exit 1")
			vh.Check(!ok && err.Error() == "y\n", "error-text", "the error is %q", err)
		}
	}
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "reload-leaf" {
		leaf()
		return
	}
	vh.Main("C39", func() []vh.Scenario {
		return []vh.Scenario{
			{Name: "scripts", Split: 4, Body: scripts},
			{Name: "ends", Split: 2, Body: ends},
			{Name: "statuses", Split: 1, Body: statuses},
			{Name: "amounts", Split: 2, Body: amounts},
			{Name: "texts", Split: 2, Body: texts},
			{Name: "sequence", Split: 2, Body: sequence},
			{Name: "reload", Split: 2, Body: reload},
		}
	})
}
