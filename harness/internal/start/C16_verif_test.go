package start

import (
	"fmt"
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	log "github.com/sirupsen/logrus"

	bpkg "github.com/teamlint/baron/pkg"
)

func without(s, cut string) string {
	out := ""
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], cut) {
			i += len(cut)
		} else {
			out += s[i : i+1]
			i++
		}
	}
	return out
}

func underscored(s string) string {
	out := ""
	for _, c := range []byte(s) {
		if c == '-' || c == ' ' {
			c = '_'
		}
		out += string([]byte{c})
	}
	return out
}

// snapshot: path -> mode and content of everything below root.
func snapshot(root string) map[string]string {
	m := map[string]string{}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case i.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[rel] = "link " + l
		case i.IsDir():
			m[rel] = "dir"
		default:
			b, _ := os.ReadFile(p)
			m[rel] = "file " + string(b)
		}
		return nil
	})
	return m
}

func diffSnap(a, b map[string]string) (d []string) {
	for k, v := range a {
		if b[k] != v {
			d = append(d, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k)
		}
	}
	sort.Strings(d)
	return
}

func TestVerif_C16(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	root := t.TempDir()
	wd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(wd)
	vhRun(t, "C16", "names over letters, '-', ' ', '_', digits and '.proto' x output directories (none, existing, missing, nested) x targets that are absent, files, directories, links; the whole scratch tree compared before and after; names of packages and services; failing writes; non-trivial: a file can be written", 15, 60, func(h *vh) {
		for n := 0; n < 4000 && h.More(); n++ {
			alias := h.Str("aB-_ 9.", 6) + h.Pick("", "", ".proto", "Foo", "foo-bar")
			out := h.Pick("", ".", "/x", "a/b")
			h.Case("names", fmt.Sprintf("%q in %q", alias, out), true, func() string {
				p := protoInfo{alias: alias, out: out}
				wp := strings.ToLower(without(without(alias, "-"), " "))
				if g := p.PackageName(); g != wp {
					return fmt.Sprintf("package %q, want %q", g, wp)
				}
				if g, w := p.ServiceName(), bpkg.GoCamelCase(underscored(alias)); g != w {
					return fmt.Sprintf("service %q, want %q", g, w)
				}
				if g, w := p.FileName(), filepath.Join(out, wp+".proto"); g != w {
					return fmt.Sprintf("file %q, want %q", g, w)
				}
				if g, w := removeDotProtoSuffix(alias), without(alias, ".proto"); g != w {
					return fmt.Sprintf("without .proto %q, want %q", g, w)
				}
				return ""
			})
		}
		for n := 0; n < 500 && h.More(); n++ {
			dir := filepath.Join(root, fmt.Sprint(n))
			os.MkdirAll(filepath.Join(dir, "have"), 0777)
			os.WriteFile(filepath.Join(dir, "start.txt"), []byte("keep"), 0666)
			os.WriteFile(filepath.Join(dir, "have", "keep.proto"), []byte("keep"), 0666)
			if err := os.Chdir(dir); err != nil {
				panic(err)
			}
			name := h.Pick("", "foo", "Foo-Bar", "a b", "x.proto", "A_b", "start", "a.proto.proto", "foo2")
			out := h.Pick("", "have", "new", "new/er", ".", dir+"/abs", "have/../new")
			base := name
			if base == "" {
				base = "start"
			}
			base = strings.ToLower(without(without(without(base, ".proto"), "-"), " ")) + ".proto"
			target := filepath.Join(out, base)
			kind := h.Rng.Intn(7)
			switch kind {
			case 0, 1, 2: // absent
			case 3:
				os.MkdirAll(filepath.Dir(target), 0777)
				os.WriteFile(target, []byte(h.Pick("", "mine", "mine\n")), 0666)
			case 4:
				os.MkdirAll(target, 0777)
			case 5: // a link to an existing file
				os.MkdirAll(filepath.Dir(target), 0777)
				os.Symlink(filepath.Join(dir, "start.txt"), target)
			case 6: // the directory is a file
				if out != "new" && out != "new/er" {
					kind = 0
				} else {
					os.WriteFile("new", []byte("file"), 0666)
				}
			}
			in := fmt.Sprintf("name %q, directory %q, target kind %d", name, strings.Replace(out, dir, "<abs>", 1), kind)
			h.Case("do", in, kind < 3, func() string {
				before := snapshot(dir)
				code := Do(name, out)
				after := snapshot(dir)
				d := diffSnap(before, after)
				if kind >= 3 {
					if code == 0 {
						return "returns 0"
					}
					if len(d) > 0 {
						return fmt.Sprintf("changed %v", d)
					}
					return ""
				}
				if code != 0 {
					return fmt.Sprintf("returns %d", code)
				}
				abs := target
				if !filepath.IsAbs(abs) {
					abs = filepath.Join(dir, target)
				}
				rel, _ := filepath.Rel(dir, abs)
				files := 0
				for _, k := range d {
					if after[k] == "dir" && strings.HasPrefix(rel, k+"/") {
						continue
					}
					if k != rel {
						return fmt.Sprintf("changed %s (only %s may be)", k, rel)
					}
					files++
				}
				if files != 1 {
					return fmt.Sprintf("%s was not written; changes %v", rel, d)
				}
				p := protoInfo{alias: without(map[bool]string{true: "start", false: name}[name == ""], ".proto")}
				text := after[rel]
				for _, w := range []string{"package " + p.PackageName() + ";", "service " + p.ServiceName() + " {", "message StatusResponse {\n  ServiceStatus status = 1;\n}\n"} {
					if !strings.Contains(text, w) {
						return fmt.Sprintf("the file lacks %q:\n%s", w, text)
					}
				}
				again := Do(name, out)
				if again == 0 {
					return "a second run returns 0"
				}
				if d := diffSnap(after, snapshot(dir)); len(d) > 0 {
					return fmt.Sprintf("a second run changed %v", d)
				}
				return ""
			})
			os.Chdir(root)
			if n%20 == 19 {
				ents, _ := os.ReadDir(root)
				for _, e := range ents {
					os.RemoveAll(filepath.Join(root, e.Name()))
				}
			}
		}
		// writes that fail: files may not grow beyond a few bytes
		signal.Ignore(syscall.SIGXFSZ)
		for _, lim := range []uint64{0, 1, 100} {
			lim := lim
			dir := filepath.Join(root, fmt.Sprint("full", lim))
			os.MkdirAll(dir, 0777)
			h.Case("full", fmt.Sprintf("files may hold %d bytes", lim), true, func() string {
				var old syscall.Rlimit
				if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
					return ""
				}
				if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: old.Max}); err != nil {
					return ""
				}
				code := Do("foo", dir)
				syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
				if b, _ := os.ReadFile(filepath.Join(dir, "foo.proto")); code == 0 && !strings.HasSuffix(string(b), "status = 1;\n}\n") {
					return fmt.Sprintf("returns 0 but the file holds %q", b)
				}
				return ""
			})
		}
	})
}
