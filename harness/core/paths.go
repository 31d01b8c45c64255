package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/dag"
)

var nameParts = []string{"a", "dict", "B", "имя", "日", " ", "-", "_", "~", "x y", "0", "\\", "\n", "é", "#", "%20", "*"}

func fileName(r *kit.Rand) string {
	for {
		s := ""
		for k := r.Range(1, 4); k > 0; k-- {
			if r.Chance(40) {
				s += "."
			}
			if r.Chance(80) {
				s += kit.Pick(r, nameParts)
			}
		}
		if r.Chance(3) {
			s += strings.Repeat(kit.Pick(r, []string{"n", "ж", "n.", " "}), r.Range(20, 90))
		}
		if r.Chance(15) {
			s += kit.Pick(r, []string{".", "..", ".tar.gz", ".opcorpora.bz2"})
		}
		if s != "" && s != "." && s != ".." {
			return s
		}
	}
}

func resolve(c *kit.Case, how, abs string) {
	c.Count("paths_resolved", 1)
	var (
		dir, name, ext string
		err            error
	)
	c.NoPanic("resolving "+how, func() { dir, name, ext, err = dag.ResolveFilePath(how) })
	if err != nil {
		c.Fail("resolving existing path %q (%q): %v", how, abs, err)
	}
	if got := dir + name + ext; got != abs && filepath.Join(dir, name+ext) != abs {
		c.Fail("resolving %q gives %q %q %q, which do not spell %q", how, dir, name, ext, abs)
	}
	if filepath.Clean(dir) != filepath.Dir(abs) {
		c.Fail("resolving %q gives directory %q, expected %q", how, dir, filepath.Dir(abs))
	}
	if ext != "" && (ext[0] != '.' || strings.Count(ext, ".") != 1) {
		c.Fail("resolving %q gives extension %q", how, ext)
	}
	if ext != filepath.Ext(filepath.Base(abs)) && abs != "/" {
		c.Fail("resolving %q gives extension %q, expected %q", how, ext, filepath.Ext(filepath.Base(abs)))
	}
}

func c23() kit.Check {
	return kit.Check{
		Rule: "A case makes files and directories with odd names (dots in every place, no extension, hidden, spaces, separators doubled, unicode, links) in a scratch directory and resolves each by absolute, relative, dotted and doubled-separator spellings, and paths that do not exist; further cases create data paths of domains from several working directories, twice, and use them. Non-trivial: at least one existing path; distinct by name.",
		Groups: []kit.Group{
			{Name: "resolve", Quick: 600, Thorough: 12000, Serial: true, Run: func(c *kit.Case) {
				root := filepath.Join(c.Scratch, "r")
				if err := os.RemoveAll(root); err != nil {
					c.Fail("harness: %v", err)
				}
				dir := root
				for k := c.R.Intn(3); k > 0; k-- {
					dir = filepath.Join(dir, fileName(c.R))
				}
				if err := os.MkdirAll(dir, 0o755); err != nil {
					c.Fail("harness: %v", err)
				}
				old, _ := os.Getwd()
				defer os.Chdir(old)
				name := fileName(c.R)
				abs := filepath.Join(dir, name)
				switch c.R.Intn(4) {
				case 0:
					if err := os.Mkdir(abs, 0o755); err != nil {
						c.Fail("harness: %v", err)
					}
				case 1:
					if err := os.WriteFile(filepath.Join(root, "target"), nil, 0o644); err != nil {
						c.Fail("harness: %v", err)
					}
					if abs == filepath.Join(root, "target") {
						break
					}
					if err := os.Symlink(filepath.Join(root, "target"), abs); err != nil {
						c.Fail("harness: %v", err)
					}
				default:
					if err := os.WriteFile(abs, []byte("x"), 0o644); err != nil {
						c.Fail("harness: %v", err)
					}
				}
				c.Op("existing %q", abs)
				resolve(c, abs, abs)
				resolve(c, strings.ReplaceAll(abs, "/", "//"), abs)
				resolve(c, dir+"/./"+name, abs)
				// by way of a link to the directory it is in
				other := filepath.Join(c.Scratch, "l"+fileName(c.R))
				_ = os.Remove(other)
				if err := os.Symlink(dir, other); err != nil {
					c.Fail("harness: %v", err)
				}
				defer os.Remove(other)
				resolve(c, other+"/"+name, filepath.Join(other, name))
				resolve(c, other, other)
				c.Count("resolved_by_links", 2)
				resolve(c, dir+"/../"+filepath.Base(dir)+"/"+name, abs)
				if err := os.Chdir(dir); err != nil {
					c.Fail("harness: %v", err)
				}
				resolve(c, name, abs)
				resolve(c, "./"+name, abs)
				resolve(c, "../"+filepath.Base(dir)+"/"+name, abs)
				resolve(c, ".", dir)
				resolve(c, "", dir)
				resolve(c, "..", filepath.Dir(dir))
				for k := 0; k < 9; k++ {
					missing := fileName(c.R)
					switch k {
					case 1:
						missing = abs + missing
					case 2:
						missing = filepath.Join(dir, "none", missing)
					case 3: // nothing lies below a file
						missing = abs + "/" + missing
					case 4: // longer than a name can be
						missing = filepath.Join(dir, strings.Repeat("n", 300))
					case 5, 6, 7: // links that lead nowhere
						missing = filepath.Join(dir, fmt.Sprintf("link%d.x", k))
						if err := os.Symlink(kit.Pick(c.R, []string{"nowhere", dir + "/nowhere.txt", "link5.x", "link6.x", "link7.x"}), missing); err != nil {
							c.Fail("harness: %v", err)
						}
						if k == 7 && c.R.Bool() {
							missing = filepath.Base(missing)
						}
					case 8:
						missing = strings.Repeat("d/", 3000)
					}
					if _, err := os.Stat(missing); err == nil {
						continue
					}
					c.Count("missing_paths", 1)
					var err error
					c.NoPanic("resolving a missing path", func() { _, _, _, err = dag.ResolveFilePath(missing) })
					if err == nil {
						c.Fail("resolving missing path %q: no error", missing)
					}
					if !errors.Is(err, dag.ErrIndex) {
						c.Fail("resolving missing path %q: %v is no index error", missing, err)
					}
				}
				c.Sig(name, len(dir))
				c.NonTrivial()
			}},
			{Name: "root", Quick: 1, Thorough: 1, Serial: true, Run: func(c *kit.Case) {
				for _, p := range []string{"/", "//", "/.", "/tmp/..", "/tmp"} {
					abs := filepath.Clean(p)
					if abs == "//" {
						abs = "/"
					}
					c.Op("resolve %q", p)
					resolve(c, p, abs)
				}
				c.NonTrivial()
			}},
			{Name: "datapath", Quick: 200, Thorough: 3000, Serial: true, Run: func(c *kit.Case) {
				root := filepath.Join(c.Scratch, "d")
				if err := os.RemoveAll(root); err != nil {
					c.Fail("harness: %v", err)
				}
				if err := os.MkdirAll(root, 0o755); err != nil {
					c.Fail("harness: %v", err)
				}
				old, _ := os.Getwd()
				defer os.Chdir(old)
				if err := os.Chdir(root); err != nil {
					c.Fail("harness: %v", err)
				}
				domain, file := fileName(c.R), fileName(c.R)
				data := common.GetDataPath()
				dp, fp := common.DomainDataPath(domain), common.DomainFilePath(domain, file)
				c.Op("domain %q file %q: %q %q", domain, file, dp, fp)
				if filepath.Dir(dp) != filepath.Clean(data) || filepath.Base(dp) != domain {
					c.Fail("data path of domain %q is %q, the data directory is %q", domain, dp, data)
				}
				if filepath.Dir(fp) != filepath.Clean(dp) || filepath.Base(fp) != file {
					c.Fail("path of file %q of domain %q is %q, its data path is %q", file, domain, fp, dp)
				}
				if filepath.IsAbs(data) || !strings.HasPrefix(filepath.Join(root, data), root+"/") || !strings.HasPrefix(filepath.Join(root, dp), root+"/") {
					c.Skip("the data directory is not below the working directory")
				}
				for k := 0; k < 3; k++ {
					if err := common.MakeDomainDataPath(domain); err != nil {
						c.Fail("making the data path of %q, time %d: %v", domain, k+1, err)
					}
					if err := os.WriteFile(fp, []byte(fmt.Sprint(k)), 0o644); err != nil {
						c.Fail("the data path of %q is not usable: %v", domain, err)
					}
					if got, err := os.ReadFile(filepath.Join(root, dp, file)); err != nil || string(got) != fmt.Sprint(k) {
						c.Fail("file %q of domain %q: %q, %v", file, domain, got, err)
					}
					c.Count("data_paths_made", 1)
				}
				for _, made := range []string{data, dp} { // the owner has to be able to use it, who may not be root
					st, err := os.Stat(filepath.Join(root, made))
					if err != nil || !st.IsDir() || st.Mode().Perm()&0o700 != 0o700 {
						c.Fail("the data path %q of %q was made as %v, %v", made, domain, st.Mode(), err)
					}
				}
				entries, _ := os.ReadDir(root)
				if len(entries) != 1 {
					c.Fail("making the data path of %q made %v", domain, entries)
				}
				// nothing of an existing file is lost, and an unusable path is reported
				for _, below := range []bool{true, false} { // in the place of the data directory, of the domain's
					for kind := 0; kind < 7; kind++ {
						if err := os.RemoveAll(filepath.Join(root, data)); err != nil {
							c.Fail("harness: %v", err)
						}
						at := filepath.Join(root, data)
						if !below {
							at = filepath.Join(root, dp)
						}
						if err := os.MkdirAll(filepath.Dir(at), 0o755); err != nil {
							c.Fail("harness: %v", err)
						}
						other := filepath.Join(root, "other")
						if err := os.RemoveAll(other); err != nil {
							c.Fail("harness: %v", err)
						}
						var err error
						switch kind {
						case 0:
							err = os.WriteFile(at, []byte("file"), 0o644)
						case 1:
							err = os.WriteFile(at, nil, 0o644)
						case 2:
							err = syscall.Mkfifo(at, 0o644)
						case 3:
							err = os.Symlink(filepath.Join(root, "nothing"), at)
						case 4:
							err = os.Symlink(at, at)
						case 5:
							if err = os.WriteFile(other, []byte("file"), 0o644); err == nil {
								err = os.Symlink(other, at)
							}
						case 6: // a link to a directory is one
							if err = os.Mkdir(other, 0o755); err == nil {
								err = os.Symlink(other, at)
							}
						}
						if err != nil {
							c.Fail("harness: %v", err)
						}
						was, err := os.Lstat(at)
						if err != nil {
							c.Fail("harness: %v", err)
						}
						err = common.MakeDomainDataPath(domain)
						is, _ := os.Lstat(at)
						if is == nil || is.Mode() != was.Mode() || is.Size() != was.Size() {
							c.Fail("making the data path of %q, with %v in its way (below: %v), made that %v", domain, was.Mode(), below, is)
						}
						c.Count("data_path_obstacles", 1)
						if kind < 6 {
							if err == nil {
								c.Fail("making the data path of %q, with %v of %d bytes in its way (kind %d, below: %v): no error", domain, was.Mode(), was.Size(), kind, below)
							}
							continue
						}
						if err != nil {
							c.Fail("making the data path of %q, where there is a link to a directory: %v", domain, err)
						}
						if err := os.WriteFile(fp, []byte("f"), 0o644); err != nil {
							c.Fail("the data path of %q, where there is a link to a directory, is not usable: %v", domain, err)
						}
					}
				}
				// nor can anything be made or found where the working directory is gone
				gone := filepath.Join(root, "gone")
				if err := os.Mkdir(gone, 0o755); err != nil {
					c.Fail("harness: %v", err)
				}
				if err := os.Chdir(gone); err != nil {
					c.Fail("harness: %v", err)
				}
				if err := os.Remove(gone); err != nil {
					c.Fail("harness: %v", err)
				}
				if err := common.MakeDomainDataPath(domain); err == nil {
					c.Fail("making the data path of %q in a directory that is gone: no error", domain)
				}
				if _, _, _, err := dag.ResolveFilePath(file); !errors.Is(err, dag.ErrIndex) {
					c.Fail("resolving %q in a directory that is gone: %v", file, err)
				}
				c.Count("working_directories_gone", 1)
				c.Sig(domain, file)
				c.NonTrivial()
			}},
		},
	}
}
