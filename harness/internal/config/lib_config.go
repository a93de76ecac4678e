package config

import (
	"encoding/json"
	"errors"
	"os"
	"time"
)

// Models of what a configuration is read with. Natively the real functions run on real files.

type vpKV struct{ key, raw string }

// vpFileKVs is the content of the configuration file.
var vpFileKVs []vpKV

// vpWriteFile puts a configuration file in a scratch directory.
//
//vp:stub github.com/frk/gosql/internal/config.vpWriteFile
func vpWriteFileModel(kvs []vpKV) string {
	vpFileKVs = kvs
	return "/scratch/gosql.json"
}

func vpWriteFile(kvs []vpKV) string {
	f, err := os.CreateTemp("", "vp")
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if _, err := f.WriteString(vpJSON(kvs)); err != nil {
		panic(err)
	}
	return f.Name()
}

func vpJSON(kvs []vpKV) string {
	s := "{"
	for i, kv := range kvs {
		if i > 0 {
			s += ","
		}
		s += `"` + kv.key + `":` + kv.raw
	}
	return s + "}"
}

// vpRemove removes what vpWriteFile made.
//
//vp:stub github.com/frk/gosql/internal/config.vpRemove
func vpRemoveModel(name string) {}

func vpRemove(name string) { os.Remove(name) }

var vpNoFile = errors.New("no such file")

// vpNode is a file, or a directory, of the tree that a configuration file is looked for in.
type vpNode struct {
	name string
	dir  bool
	kvs  []vpKV
}

func (n vpNode) Name() string       { return n.name }
func (n vpNode) IsDir() bool        { return n.dir }
func (n vpNode) Size() int64        { return 0 }
func (n vpNode) Mode() os.FileMode  { return 0 }
func (n vpNode) ModTime() time.Time { return time.Time{} }
func (n vpNode) Sys() any           { return nil }

// vpTree has the entries of directories by their paths.
var vpTree map[string][]vpNode

// vpOpened is the directory that was opened last.
var vpOpened string

// vpMakeTree makes directories within one another, with the given entries.
//
//vp:stub github.com/frk/gosql/internal/config.vpMakeTree
func vpMakeTreeModel(names []string, levels [][]vpNode) (root, dir string) {
	vpTree = map[string][]vpNode{"/scratch": nil}
	dir = "/scratch"
	for i, l := range levels {
		dir += "/" + names[i]
		vpTree[dir] = l
	}
	return "/scratch", dir
}

func vpMakeTree(names []string, levels [][]vpNode) (root, dir string) {
	root, err := os.MkdirTemp("", "vp")
	if err != nil {
		panic(err)
	}
	dir = root
	for i, l := range levels {
		dir += "/" + names[i]
		if err := os.Mkdir(dir, 0o755); err != nil {
			panic(err)
		}
		for _, n := range l {
			if n.dir {
				err = os.Mkdir(dir+"/"+n.name, 0o755)
			} else {
				err = os.WriteFile(dir+"/"+n.name, []byte(vpJSON(n.kvs)), 0o644)
			}
			if err != nil {
				panic(err)
			}
		}
	}
	return root, dir
}

// vpRemoveTree removes what vpMakeTree made.
//
//vp:stub github.com/frk/gosql/internal/config.vpRemoveTree
func vpRemoveTreeModel(root string) {}

func vpRemoveTree(root string) { os.RemoveAll(root) }

//vp:stub os.Open
func vpOpen(name string) (*os.File, error) {
	if name == "/scratch/gosql.json" {
		return new(os.File), nil
	}
	if _, ok := vpTree[name]; ok || name == "/" {
		vpOpened = name
		return new(os.File), nil
	}
	for i := len(name) - 1; i > 0; i-- {
		if name[i] == '/' {
			for _, n := range vpTree[name[:i]] {
				if n.name == name[i+1:] {
					vpOpened, vpFileKVs = name, n.kvs
					return new(os.File), nil
				}
			}
			break
		}
	}
	return nil, vpNoFile
}

//vp:stub (*os.File).Readdir
func vpReaddir(f *os.File, n int) (out []os.FileInfo, err error) {
	for _, n := range vpTree[vpOpened] {
		out = append(out, n)
	}
	return out, nil
}

//vp:stub (*os.File).Close
func vpClose(f *os.File) error { return nil }

//vp:stub (*encoding/json.Decoder).Decode
func vpDecode(d *json.Decoder, v any) error {
	for _, kv := range vpFileKVs {
		switch f := vpJSONField(v, kv.key).(type) {
		case nil:
		case json.Unmarshaler:
			if err := f.UnmarshalJSON([]byte(kv.raw)); err != nil {
				return err
			}
		default:
			panic("field of another type")
		}
	}
	return nil
}

var vpBadJSON = errors.New("json: cannot unmarshal")

//vp:stub encoding/json.Unmarshal
func vpUnmarshal(data []byte, v any) error {
	switch p := v.(type) {
	case *string:
		s, ok := vpJSONString(data)
		if !ok {
			return vpBadJSON
		}
		*p = s
	case *bool:
		switch string(data) {
		case "true":
			*p = true
		case "false":
			*p = false
		default:
			return vpBadJSON
		}
	case *[]string:
		if string(data) == "[]" {
			*p = []string{}
			return nil
		}
		if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
			return vpBadJSON
		}
		from := 1
		out := []string{}
		for i := 1; i < len(data); i++ { // no commas in the strings
			if data[i] == ',' || i == len(data)-1 {
				s, ok := vpJSONString(data[from:i])
				if !ok {
					return vpBadJSON
				}
				out = append(out, s)
				from = i + 1
			}
		}
		*p = out
	default:
		panic("value of another type")
	}
	return nil
}

// vpJSONString reads a string without escapes.
func vpJSONString(data []byte) (string, bool) {
	if len(data) < 2 || data[0] != '"' || data[len(data)-1] != '"' {
		return "", false
	}
	return string(data[1 : len(data)-1]), true
}

// vpText is a printable text that needs no escapes in JSON.
func vpText(n int) string {
	b := vpBytes(n)
	for _, c := range b {
		vpAssume(vpAnd(c >= ' ', c < 0x7f, c != '"', c != '\\', c != ','))
	}
	return string(b)
}
