package command

import (
	"database/sql"
	"errors"
	"io"
	"net"
	"os"
	"strconv"
	"strings"

	"github.com/frk/gosql/internal/config"
)

// Models of the file system and the database that the tool is run with. Natively
// the real functions run in a scratch directory, on a stand-in for a server.

const vpRoot = "/scratch"

var (
	vpCwd    = "/"
	vpFiles  map[string]string    // content of files by path
	vpDirs   map[string]bool      // directories
	vpHandle map[*os.File]*vpFile // open files
	vpFull   map[string]bool      // files that cannot be written to
	vpErrFS  = errors.New("no such file or directory")
)

// vpScratch makes a directory of its own.
//
//vp:stub github.com/frk/gosql/internal/command.vpScratch
func vpScratchModel() string {
	vpCwd, vpFiles, vpFull = "/", map[string]string{}, map[string]bool{}
	vpDirs, vpHandle = map[string]bool{vpRoot: true}, map[*os.File]*vpFile{}
	return vpRoot
}

func vpScratch() string {
	dir, err := os.MkdirTemp("", "vp")
	if err != nil {
		panic(err)
	}
	return dir
}

// vpRemove removes what vpScratch made.
//
//vp:stub github.com/frk/gosql/internal/command.vpRemove
func vpRemoveModel(dir string) {}

func vpRemove(dir string) {
	os.Chdir("/")
	os.RemoveAll(dir)
}

// vpPut puts a file in the scratch directory.
//
//vp:stub github.com/frk/gosql/internal/command.vpPut
func vpPutModel(path, text string) { vpFiles[path] = text }

func vpPut(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(err)
	}
}

// vpFill lets writing to the path fail.
//
//vp:stub github.com/frk/gosql/internal/command.vpFill
func vpFillModel(path string) { vpFiles[path], vpFull[path] = "", true }

func vpFill(path string) {
	if err := os.Symlink("/dev/full", path); err != nil {
		panic(err)
	}
}

// vpGet reads a file.
//
//vp:stub github.com/frk/gosql/internal/command.vpGet
func vpGetModel(path string) (string, bool) {
	s, ok := vpFiles[path]
	return s, ok
}

func vpGet(path string) (string, bool) {
	b, err := os.ReadFile(path)
	return string(b), err == nil
}

// vpServe gives the name of a database that can be connected to.
//
//vp:stub github.com/frk/gosql/internal/command.vpServe
func vpServeModel() (dsn string, stop func()) { return "host=up", func() {} }

func vpServe() (dsn string, stop func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				vpAnswer(c)
			}()
		}
	}()
	port := l.Addr().(*net.TCPAddr).Port
	return "host=127.0.0.1 user=u dbname=d sslmode=disable port=" + strconv.Itoa(port), func() { l.Close() }
}

// vpAnswer lets anyone in and gives empty answers.
func vpAnswer(c net.Conn) {
	msg := func(head int) (byte, bool) {
		h := make([]byte, head+4)
		if _, err := io.ReadFull(c, h); err != nil {
			return 0, false
		}
		n := int(h[head])<<24 | int(h[head+1])<<16 | int(h[head+2])<<8 | int(h[head+3])
		if _, err := io.ReadFull(c, make([]byte, n-4)); err != nil {
			return 0, false
		}
		return h[0], true
	}
	if _, ok := msg(0); !ok {
		return
	}
	ready := "Z\x00\x00\x00\x05I"
	io.WriteString(c, "R\x00\x00\x00\x08\x00\x00\x00\x00"+ready)
	for {
		k, ok := msg(1)
		if !ok || k == 'X' {
			return
		}
		if k == 'Q' {
			io.WriteString(c, "I\x00\x00\x00\x04"+ready)
		}
	}
}

//vp:stub os.Chdir
func vpChdir(dir string) error {
	if !vpDirs[dir] {
		return vpErrFS
	}
	vpCwd = dir
	return nil
}

//vp:stub os.Getwd
func vpGetwd() (string, error) { return vpCwd, nil }

// vpFile is an open file.
type vpFile struct {
	name  string
	at    int
	flags int
}

func vpParent(name string) string {
	i := strings.LastIndex(name, "/")
	if i <= 0 {
		return vpCwd
	}
	return name[:i]
}

func vpAbs(name string) string {
	if len(name) > 0 && name[0] != '/' {
		return vpCwd + "/" + name
	}
	return name
}

//vp:stub os.OpenFile
func vpOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	name = vpAbs(name)
	_, exists := vpFiles[name]
	writes := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case vpDirs[name]:
		if writes || flag&os.O_CREATE != 0 {
			return nil, vpErrFS
		}
	case !exists:
		if flag&os.O_CREATE == 0 || !vpDirs[vpParent(name)] {
			return nil, vpErrFS
		}
		vpFiles[name] = ""
	case flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL:
		return nil, os.ErrExist
	}
	if flag&os.O_TRUNC != 0 && !vpDirs[name] {
		vpFiles[name] = ""
	}
	f := new(os.File)
	vpHandle[f] = &vpFile{name: name, flags: flag}
	return f, nil
}

//vp:stub os.Open
func vpOpen(name string) (*os.File, error) { return vpOpenFile(name, os.O_RDONLY, 0) }

//vp:stub os.Create
func vpCreate(name string) (*os.File, error) {
	return vpOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//vp:stub os.CreateTemp
func vpCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = vpRoot
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for n := 1; ; n++ {
		name := dir + "/" + pre + strconv.Itoa(n) + suf
		if _, ok := vpFiles[name]; !ok {
			return vpOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		}
	}
}

//vp:stub (*os.File).Write
func vpWrite(f *os.File, b []byte) (int, error) {
	h, ok := vpHandle[f]
	if !ok {
		return 0, os.ErrClosed
	}
	if vpFull[h.name] || h.flags&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, vpErrFS
	}
	old := vpFiles[h.name]
	if h.flags&os.O_APPEND != 0 {
		h.at = len(old)
	}
	for len(old) < h.at {
		old += "\x00"
	}
	rest := ""
	if h.at+len(b) < len(old) {
		rest = old[h.at+len(b):]
	}
	vpFiles[h.name] = old[:h.at] + string(b) + rest
	h.at += len(b)
	return len(b), nil
}

//vp:stub (*os.File).WriteString
func vpWriteString(f *os.File, s string) (int, error) { return vpWrite(f, []byte(s)) }

//vp:stub (*os.File).ReadFrom
func vpReadFrom(f *os.File, r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	k, err := vpWrite(f, b)
	return int64(k), err
}

//vp:stub (*os.File).Read
func vpRead(f *os.File, b []byte) (int, error) {
	h, ok := vpHandle[f]
	if !ok {
		return 0, os.ErrClosed
	}
	if vpDirs[h.name] || h.flags&os.O_WRONLY != 0 {
		return 0, vpErrFS
	}
	s := vpFiles[h.name]
	if h.at >= len(s) {
		return 0, io.EOF
	}
	n := copy(b, s[h.at:])
	h.at += n
	return n, nil
}

//vp:stub (*os.File).Seek
func vpSeek(f *os.File, offset int64, whence int) (int64, error) {
	h, ok := vpHandle[f]
	if !ok {
		return 0, os.ErrClosed
	}
	switch whence {
	case io.SeekStart:
		h.at = int(offset)
	case io.SeekCurrent:
		h.at += int(offset)
	case io.SeekEnd:
		h.at = len(vpFiles[h.name]) + int(offset)
	}
	return int64(h.at), nil
}

//vp:stub (*os.File).Truncate
func vpTruncateFile(f *os.File, size int64) error {
	h, ok := vpHandle[f]
	if !ok {
		return os.ErrClosed
	}
	return vpTruncate(h.name, size)
}

//vp:stub os.Truncate
func vpTruncate(name string, size int64) error {
	name = vpAbs(name)
	s, ok := vpFiles[name]
	if !ok {
		return vpErrFS
	}
	for len(s) < int(size) {
		s += "\x00"
	}
	vpFiles[name] = s[:int(size)]
	return nil
}

//vp:stub os.ReadFile
func vpReadFile(name string) ([]byte, error) {
	s, ok := vpFiles[vpAbs(name)]
	if !ok {
		return nil, vpErrFS
	}
	return []byte(s), nil
}

//vp:stub os.WriteFile
func vpWriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := vpCreate(name)
	if err != nil {
		return err
	}
	_, err = vpWrite(f, b)
	return err
}

//vp:stub os.Rename
func vpRename(from, to string) error {
	from, to = vpAbs(from), vpAbs(to)
	s, ok := vpFiles[from]
	if !ok || vpDirs[to] || !vpDirs[vpParent(to)] {
		return vpErrFS
	}
	delete(vpFiles, from)
	delete(vpFull, to)
	vpFiles[to] = s
	for _, h := range vpHandle {
		if h.name == from {
			h.name = to
		}
	}
	return nil
}

//vp:stub os.Remove
func vpUnlink(name string) error {
	name = vpAbs(name)
	if _, ok := vpFiles[name]; !ok {
		return vpErrFS
	}
	delete(vpFiles, name)
	delete(vpFull, name)
	return nil
}

//vp:stub os.Chmod
func vpChmod(name string, mode os.FileMode) error { return nil }

//vp:stub (*os.File).Chmod
func vpChmodFile(f *os.File, mode os.FileMode) error { return nil }

//vp:stub (*os.File).Sync
func vpSync(f *os.File) error {
	if _, ok := vpHandle[f]; !ok {
		return os.ErrClosed
	}
	return nil
}

//vp:stub (*os.File).Close
func vpClose(f *os.File) error {
	if _, ok := vpHandle[f]; !ok {
		return os.ErrClosed
	}
	delete(vpHandle, f)
	return nil
}

//vp:stub (*os.File).Name
func vpName(f *os.File) string {
	if h, ok := vpHandle[f]; ok {
		return h.name
	}
	return ""
}

var vpDSN string

//vp:stub database/sql.Open
func vpSQLOpen(driver, dsn string) (*sql.DB, error) {
	vpDSN = dsn
	return new(sql.DB), nil
}

//vp:stub (*database/sql.DB).Ping
func vpPing(db *sql.DB) error {
	if vpDSN != "host=up" {
		return vpErrFS
	}
	return nil
}

//vp:stub (*database/sql.DB).Close
func vpDBClose(db *sql.DB) error { return nil }

// vpConfig is a configuration that nothing is wrong with.
func vpConfig(dir, dsn string) config.Config {
	c := config.DefaultConfig
	c.WorkingDirectory.Value = dir
	c.DatabaseDSN.Value = dsn
	return c
}

// vpPrintable is a text of printable characters.
func vpPrintable(n int) string {
	b := vpBytes(n)
	for _, c := range b {
		vpAssume(vpAnd(c >= ' ', c < 0x7f))
	}
	return string(b)
}
