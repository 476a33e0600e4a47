package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/pbnjay/grate"

	"verif/harness/gen"
	"verif/harness/mut"
)

// toolSheet is a sheet as the tools should see it.
type toolSheet struct {
	name  string
	err   string
	empty bool
	rows  [][]string
	types [][]string
}

// toolFile is a file as the tools should see it.
type toolFile struct {
	arg    string // on the command line
	err    string // if it cannot be read
	sheets []toolSheet
	desc   string
}

// readTool reads a file in this process, false if it is too large.
func readTool(fn, arg string) (f *toolFile, ok bool) {
	f = &toolFile{arg: arg}
	src, err := grate.Open(fn)
	if err != nil {
		f.err = strings.ReplaceAll(err.Error(), fn, arg)
		return f, true
	}
	defer src.Close()
	names, err := src.List()
	if err != nil {
		f.err = strings.ReplaceAll(err.Error(), fn, arg)
		return f, true
	}
	cells := 0
	for _, n := range names {
		s := toolSheet{name: n, empty: true}
		col, err := src.Get(n)
		if err != nil {
			s.err = strings.ReplaceAll(err.Error(), fn, arg)
			f.sheets = append(f.sheets, s)
			continue
		}
		for col.Next() {
			ss, ts := col.Strings(), col.Types()
			for _, t := range ts {
				if t != "blank" && t != "static" {
					s.empty = false
				}
			}
			if len(ss) != len(ts) {
				panic("strings and types differ in length")
			}
			s.rows, s.types = append(s.rows, append([]string{}, ss...)), append(s.types, ts)
			if cells += len(ss) + 1; cells > 100000 {
				return f, false
			}
		}
		f.sheets = append(f.sheets, s)
	}
	return f, true
}

// delimited tables with white space
func drawSpaced(c gen.Ch, sep string) string {
	var sb strings.Builder
	k := c.Int("columns", 1, 4)
	for n := c.Int("lines", 0, 10); n >= 0; n-- {
		for j := 0; j < k; j++ {
			if j > 0 {
				sb.WriteString(sep)
			}
			sb.WriteString(gen.Pick(c, "field", "x", "", "1", " ", "2.5", " x", "y  ", "a  b", "a   b c", "é\u00a0", "中", "-", "   "))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

var spaceRuns = regexp.MustCompile("[ \t\r\n]+")

// clean does to a cell what the flags say.
func clean(s string, condense, trim bool) string {
	if condense {
		s = spaceRuns.ReplaceAllString(s, " ")
	}
	if trim {
		s = strings.TrimSpace(s)
	}
	return s
}

// tool runs one of the commands.
func tool(c *Case, dir string, cpus int, name string, args ...string) (stdout, stderr string, code int) {
	fn := filepath.Join(os.Getenv("HARNESS_BIN"), name)
	if cpus > 0 {
		if ts, err := exec.LookPath("taskset"); err == nil {
			var cpu []string
			for i := 0; i < cpus; i++ {
				cpu = append(cpu, fmt.Sprint(i))
			}
			if exec.Command(ts, "-c", strings.Join(cpu, ","), "true").Run() == nil {
				args = append([]string{"-c", strings.Join(cpu, ","), fn}, args...)
				fn = ts
			}
		}
	}
	cmd := exec.Command(fn, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 atexit_sleep_ms=10", "GOMAXPROCS=")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if strings.HasPrefix(dir, "full:") {
		// a disk without any space left
		cmd.Dir = strings.TrimPrefix(dir, "full:")
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ENV", err)
			os.Exit(79)
		}
		defer full.Close()
		cmd.Stdout = full
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ENV", err)
		os.Exit(79)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		cmd.Process.Kill()
		<-done
		c.Fatalf("%s %q does not end", name, args)
	}
	return o.String(), e.String(), cmd.ProcessState.ExitCode()
}

func TestC26(t *testing.T) {
	if os.Getenv("HARNESS_BIN") == "" {
		t.Skip("no tools")
	}
	prop(t, func(c *Case) {
		cwd := filepath.Join(c.Dir, "cwd")
		in := filepath.Join(c.Dir, "in")
		for _, d := range []string{cwd, in, filepath.Join(in, "sub"), filepath.Join(in, "other.dir")} {
			if err := os.MkdirAll(d, 0o755); err != nil {
				panic(err)
			}
		}
		// the files
		n := c.C.Int("files", 0, 6)
		if gen.Rare(c.C, "many files", 8) {
			n = gen.Pick(c.C, "number of files", 7, 10, 15, 25, 60)
		}
		var files []*toolFile
		bad, made := 0, map[string]bool{}
		for i := 0; i < n; i++ {
			kind := gen.Pick(c.C, "kind", "xls", "xlsx", "tsv", "csv", "encrypted", "missing", "directory", "truncated", "garbage", "empty", "flipped", "again", "bulk")
			if n > 15 {
				kind = gen.Pick(c.C, "kind of many", "tsv", "csv", "bulk", "xls", "xlsx", "missing", "again")
			}
			base := gen.Pick(c.C, "base name", "f", "a b", "data.2020", "é", "x", "f", "-x", "x_2")
			dir := gen.Pick(c.C, "dir", "", "sub", "other.dir")
			if gen.Bool(c.C, "own name") {
				base = fmt.Sprintf("%s%d", base, i)
			}
			if kind == "again" {
				if len(files) == 0 {
					continue
				}
				f := files[c.C.Int("which", 0, len(files)-1)]
				for k := gen.Pick(c.C, "times", 1, 1, 1, 1, 12); k > 0; k-- {
					files = append(files, f)
				}
				continue
			}
			var data []byte
			ext := kind
			switch kind {
			case "tsv":
				data = []byte(drawSpaced(c.C, "\t"))
			case "csv":
				data = []byte(drawSpaced(c.C, ","))
			case "bulk":
				ext = "tsv"
				ch := gen.NewSeeded(c.C.U64("bulk seed"))
				var sb strings.Builder
				wide, from := 3, 0
				if ch.Int("", 0, 1) == 1 {
					// more columns later on
					wide, from = ch.Int("", 4, 9), ch.Int("", 0, 2900)
				}
				for l := ch.Int("", 1, 3000); l > 0; l-- {
					for k := 0; k < wide; k++ {
						if k < 3 || l < 3000-from && ch.Int("", 0, 50) == 0 {
							fmt.Fprintf(&sb, "%s%d", gen.Pick[string](gen.Ch(ch), "", "x", "", " long value", "é"), ch.Int("", 0, 1000))
						}
						if k < wide-1 {
							sb.WriteString("\t")
						}
					}
					sb.WriteString("\n")
				}
				data = []byte(sb.String())
			case "missing", "directory", "empty":
				ext = gen.Pick(c.C, "extension", "xls", "xlsx", "tsv", "csv")
			case "garbage":
				ext = gen.Pick(c.C, "extension", "xls", "xlsx", "tsv", "csv")
				data = gen.Bytes(c.C, "garbage", c.C.Int("size", 1, 2000))
			default:
				format := kind
				if kind == "truncated" || kind == "flipped" {
					format = gen.Pick(c.C, "format", "xls", "xlsx", "encrypted")
				}
				ext = strings.Replace(format, "encrypted", "xls", 1)
				f := drawFile(c, i, format)
				data, _ = os.ReadFile(f.fn)
				switch kind {
				case "truncated":
					data = data[:c.C.Int("length", 0, len(data)-1)]
				case "flipped":
					var log []string
					data = mut.Bytes(c.C, data, &log)
				}
			}
			name := filepath.Join(dir, base+"."+ext)
			if made[name] {
				continue
			}
			made[name] = true
			full := filepath.Join(in, name)
			arg := full
			if gen.Bool(c.C, "relative") {
				arg = filepath.Join("..", "in", name)
			}
			switch kind {
			case "missing":
			case "directory":
				if err := os.Mkdir(full, 0o755); err != nil {
					panic(err)
				}
			default:
				if err := os.WriteFile(full, data, 0o644); err != nil {
					panic(err)
				}
			}
			f, ok := readTool(full, arg)
			if !ok {
				os.WriteFile(full, []byte("a\tb\n"), 0o644)
				if f, ok = readTool(full, arg); !ok {
					panic("small file is large")
				}
			}
			if kind == "flipped" || kind == "truncated" || kind == "garbage" {
				if f2, _ := readTool(full, arg); !reflect.DeepEqual(f, f2) {
					// the errors of damaged files may differ
					os.WriteFile(full, nil, 0o644)
					f, _ = readTool(full, arg)
				}
			}
			if intact := kind == "xls" || kind == "xlsx" || kind == "encrypted" || kind == "tsv" || kind == "csv"; intact && f.err != "" && !(kind == "tsv" || kind == "csv") {
				c.Fatalf("%s: %s", kind, f.err)
			}
			if kind == "missing" && f.err == "" {
				c.Fatalf("a missing file was opened")
			}
			f.desc = kind
			if f.err != "" {
				bad++
			}
			files = append(files, f)
			c.Label("file: %s", kind)
		}
		var args, descs []string
		sheets := 0
		for _, f := range files {
			args = append(args, f.arg)
			descs = append(descs, fmt.Sprintf("%s %d sheets", f.desc, len(f.sheets)))
			sheets += len(f.sheets)
		}
		variant := ""
		if gen.Rare(c.C, "race", 20) {
			variant = "-race"
		}
		cpus := gen.Pick(c.C, "cpus", 0, 0, 0, 1, 2, 3)

		if gen.Bool(c.C, "grater instead") {
			c.grater(files, args, variant)
		} else {
			c.grate2tsv(files, args, variant, cwd, cpus)
		}
		c.Label("%d files", min(n, 7))
		if len(files) > 1 || sheets > 1 {
			c.NonTrivial(descs, args, fmt.Sprint(files))
			c.Sample("%v", descs)
		}
	})
}

// grater prints all rows of all files.
func (c *Case) grater(files []*toolFile, args []string, variant string) {
	verbose := gen.Rare(c.C, "verbose", 15)
	all := append([]string{}, args...)
	if verbose {
		all = append([]string{"-v"}, all...)
	}
	stdout, stderr, code := tool(c, filepath.Join(c.Dir, "cwd"), 0, "grater"+variant, all...)
	if strings.Contains(stderr, "DATA RACE") {
		c.Fatalf("grater: %s", stderr)
	}
	if len(args) == 0 {
		if code != 1 || stdout != "" || !strings.Contains(stderr, "USAGE") {
			c.Fatalf("grater without files ends with %d, %q, %q", code, stdout, stderr)
		}
		return
	}
	if code != 0 {
		c.Fatalf("grater %q ends with %d: %s", all, code, stderr)
	}
	var want strings.Builder
	left := stderr
	missing := func(e string) {
		i := strings.Index(left, e+"\n")
		if i < 0 {
			c.Fatalf("grater %q reports %q but not %q", all, stderr, e)
		}
		left = left[i+len(e)+1:]
	}
	for _, f := range files {
		if f.err != "" {
			missing(f.err)
			continue
		}
		for _, s := range f.sheets {
			if s.err != "" {
				missing(s.err)
				continue
			}
			for i, row := range s.rows {
				if verbose {
					want.WriteString(strings.Join(s.types[i], "\t") + "\n")
				}
				want.WriteString(strings.Join(row, "\t") + "\n")
			}
		}
	}
	if stdout != want.String() {
		c.Fatalf("grater %q prints\n%q\ninstead of\n%q", all, stdout, want.String())
	}
	c.Label("grater")

	if stdout != "" && gen.Rare(c.C, "no space", 15) {
		_, stderr, code := tool(c, "full:"+filepath.Join(c.Dir, "cwd"), 0, "grater"+variant, all...)
		if code == 0 && !strings.Contains(stderr, "no space") {
			c.Fatalf("grater %q says nothing about a full disk: %q", all, stderr)
		}
		c.Label("grater: no space")
	}
}

// grate2tsv writes the sheets to files, and a summary.
func (c *Case) grate2tsv(files []*toolFile, args []string, variant, cwd string, cpus int) {
	var flags []string
	condense, trim, skip, pretend, info := true, true, true, false, "results.txt"
	if gen.Rare(c.C, "flags", 50) {
		if gen.Rare(c.C, "keep newlines", 30) {
			condense = false
			flags = append(flags, "-r=false")
		}
		if gen.Rare(c.C, "keep spaces", 30) {
			trim = false
			flags = append(flags, "-w=false")
		}
		if gen.Rare(c.C, "keep blank rows", 30) {
			skip = false
			flags = append(flags, "-b=false")
		}
		if gen.Rare(c.C, "pretend", 20) {
			pretend = true
			flags = append(flags, "-p")
		}
		if gen.Rare(c.C, "info", 30) {
			info = "info file.txt"
			flags = append(flags, "-i", info)
		}
		if gen.Rare(c.C, "log", 30) {
			flags = append(flags, "-l", "log.txt")
		}
		if gen.Rare(c.C, "profiles", 3) {
			flags = append(flags, "-memprofile", "mem.prof")
		}
	}
	all := append(append([]string{}, flags...), args...)
	runs := 1
	if gen.Rare(c.C, "again", 15) {
		runs = 2
	}
	// what should be written
	var outs []string
	var lines []string
	for _, f := range files {
		if f.err != "" {
			lines = append(lines, fmt.Sprintf("%s\t-\t-\t-\t%s", f.arg, f.err))
			continue
		}
		base := filepath.Base(strings.TrimSuffix(f.arg, filepath.Ext(f.arg)))
		for _, s := range f.sheets {
			if s.err != "" {
				lines = append(lines, fmt.Sprintf("%s\t%s\t0\t0\t%s", f.arg, s.name, s.err))
				continue
			}
			if s.empty {
				lines = append(lines, fmt.Sprintf("%s\t%s\t0\t0\t-", f.arg, s.name))
				continue
			}
			var sb strings.Builder
			nr, nc := 0, 0
			for _, row := range s.rows {
				out := make([]string, len(row))
				blank := true
				for i, x := range row {
					out[i] = clean(x, condense, trim)
					if out[i] != "" {
						blank = false
						nc = max(nc, i+1)
					}
				}
				if blank && skip {
					continue
				}
				sb.WriteString(strings.Join(out, "\t") + "\n")
				nr++
			}
			lines = append(lines, fmt.Sprintf("%s\t%s\t%d\t%d\t-", f.arg, s.name, nr, nc))
			outs = append(outs, base+": "+sb.String())
		}
	}
	if pretend {
		outs = nil
	}
	sort.Strings(outs)
	var once []string
	once = append(once, lines...)
	for run := 1; run <= runs; run++ {
		if run > 1 {
			lines = append(lines, once...)
		}
		_, stderr, code := tool(c, cwd, cpus, "grate2tsv"+variant, all...)
		if code != 0 || strings.Contains(stderr, "DATA RACE") {
			c.Fatalf("grate2tsv %q ends with %d: %s", all, code, stderr)
		}
		var got []string
		err := filepath.Walk(filepath.Join(cwd, "results"), func(path string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() {
				return nil
			}
			data, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			name := filepath.Base(path)
			if !strings.HasSuffix(name, ".tsv") {
				return fmt.Errorf("%s is written", path)
			}
			// named after the file and the sheet
			name = strings.TrimSuffix(name, ".tsv")
			i := strings.LastIndexByte(name, '.')
			if i < 0 {
				return fmt.Errorf("%s is written", path)
			}
			got = append(got, name[:i]+": "+string(data))
			return nil
		})
		if err != nil {
			c.Fatalf("grate2tsv %q: %v", all, err)
		}
		sort.Strings(got)
		if len(got)+len(outs) > 0 && !reflect.DeepEqual(got, outs) {
			c.Fatalf("grate2tsv %q (run %d) writes\n%q\ninstead of\n%q", all, run, got, outs)
		}
		data, err := os.ReadFile(filepath.Join(cwd, info))
		if err != nil {
			c.Fatalf("grate2tsv %q: %v", all, err)
		}
		rest := string(data)
		head := "time\tfilename\tsheet\trows\tcolumns\terrors\n"
		if !strings.HasPrefix(rest, head) {
			c.Fatalf("grate2tsv %q: no header: %q", all, rest)
		}
		rest = rest[len(head):]
		var gotLines []string
		for _, l := range strings.SplitAfter(rest, "\n") {
			if l == "" {
				continue
			}
			f := strings.SplitN(strings.TrimSuffix(l, "\n"), "\t", 2)
			if _, err := time.Parse("2006-01-02 15:04:05", f[0]); err != nil || len(f) != 2 || !strings.HasSuffix(l, "\n") {
				c.Fatalf("grate2tsv %q: line %q of %q", all, l, data)
			}
			gotLines = append(gotLines, f[1])
		}
		want := append([]string{}, lines...)
		sort.Strings(want)
		sort.Strings(gotLines)
		if len(want)+len(gotLines) > 0 && !reflect.DeepEqual(gotLines, want) {
			c.Fatalf("grate2tsv %q (run %d) summarises\n%q\ninstead of\n%q", all, run, gotLines, want)
		}
	}
	c.Label("grate2tsv")
	c.Label("cpus %d", cpus)
	if len(outs) > 0 && gen.Rare(c.C, "no space", 25) {
		c.noSpace(all, cwd, filepath.Join(cwd, info), "grate2tsv"+variant, cpus, once, outs)
	}
}

// noSpace lets the writing of some or all of the outputs fail.
func (c *Case) noSpace(all []string, cwd, info, cmd string, cpus int, lines, outs []string) {
	var paths []string
	filepath.Walk(filepath.Join(cwd, "results"), func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			paths = append(paths, path)
		}
		return nil
	})
	sort.Strings(paths)
	every := gen.Bool(c.C, "every output")
	if !every {
		paths = paths[c.C.Int("which output", 0, len(paths)-1):][:1]
	}
	full := map[string]bool{}
	failing := 0
	for _, p := range paths {
		data, err := os.ReadFile(p)
		if err == nil {
			err = os.Remove(p)
		}
		if err == nil {
			err = os.Symlink("/dev/full", p)
		}
		if err != nil {
			panic(err)
		}
		full[p] = true
		if len(data) > 0 {
			failing++
		}
	}
	if failing == 0 {
		return
	}
	os.Remove(info)
	_, stderr, code := tool(c, cwd, cpus, cmd, all...)
	if strings.Contains(stderr, "DATA RACE") || strings.Contains(stderr, "panic") {
		c.Fatalf("%s %q without space ends with %d: %s", cmd, all, code, stderr)
	}
	data, _ := os.ReadFile(info)
	got := map[string]int{}
	var bad []string // the lines that report an error
	for i, l := range strings.Split(strings.TrimSuffix(string(data), "\n"), "\n") {
		f := strings.SplitN(l, "\t", 2)
		if i == 0 || len(f) != 2 {
			continue
		}
		if f := strings.Split(f[1], "\t"); len(f) != 5 || f[4] != "-" {
			bad = append(bad, f[0])
		}
		got[f[1]]++
	}
	missing := map[string]bool{}
	for _, l := range lines {
		if got[l]--; got[l] < 0 {
			missing[strings.Split(l, "\t")[0]] = true
		} else if f := strings.Split(l, "\t"); every && len(f) == 5 && f[4] == "-" && f[2] != "0" {
			c.Fatalf("%s %q reports %q although nothing could be written", cmd, all, l)
		}
	}
	if len(missing) == 0 {
		c.Fatalf("%s %q reports everything is fine although %q cannot be written:\n%s", cmd, all, paths, data)
	}
	for fn := range missing {
		if !strings.Contains("\n"+strings.Join(bad, "\n")+"\n", "\n"+fn+"\n") {
			c.Fatalf("%s %q loses %q without an error:\n%s", cmd, all, fn, data)
		}
	}
	for l, n := range got {
		if f := strings.Split(l, "\t"); n > 0 && len(f) == 5 && f[4] == "-" {
			c.Fatalf("%s %q without space reports %q, which is not expected", cmd, all, l)
		}
	}
	// the others are complete
	left := map[string]int{}
	for _, o := range outs {
		left[o]++
	}
	n := 0
	filepath.Walk(filepath.Join(cwd, "results"), func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || full[path] {
			return nil
		}
		data, err := os.ReadFile(path)
		if err != nil {
			c.Fatalf("%v", err)
		}
		name := strings.TrimSuffix(filepath.Base(path), ".tsv")
		o := name[:strings.LastIndexByte(name, '.')] + ": " + string(data)
		if left[o]--; left[o] < 0 {
			c.Fatalf("%s %q: %s is wrong when another output cannot be written: %q", cmd, all, path, data)
		}
		n++
		return nil
	})
	if n != len(outs)-len(paths) {
		c.Fatalf("%s %q writes %d of %d outputs when %d cannot be written", cmd, all, n, len(outs), len(paths))
	}
	c.Label("grate2tsv: no space")
}
