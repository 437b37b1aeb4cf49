package vsim

import (
	"io"
	"io/fs"
	"os"
	"sort"
	"syscall"
	"time"
)

// FS is a simulated file system in memory that injects faults.
type FS struct {
	Files map[string]*SimFile
	// bookkeeping for oracles
	Opened  int
	Closed  int
	Handles []*File
	Faults  map[string]int
	Log     []string
}

// SimFile is one file with its fault plan.
type SimFile struct {
	Data []byte
	Dir  bool
	// OpenErr makes opening fail.
	OpenErr error
	// ReadErrAt makes the read that would pass this offset fail with ReadErr (-1: never).
	ReadErrAt int
	ReadErr   error
	// ReadErrWithData: the failing read also delivers the bytes before the offset.
	ReadErrWithData bool
	// ReadErrOnce: reading again after the failure goes on.
	ReadErrOnce bool
	// CloseErr is returned by Close (the handle is released all the same).
	CloseErr error
	// Chunk limits the size of every read to a seeded length up to Chunk (0: no limit): short reads.
	Chunk int
	// Swap replaces the contents once SwapAt bytes were delivered: a writer replaces the file during the load.
	Swap   []byte
	SwapAt int
	// Delivered is what the last handle actually delivered, Failed if it delivered an error other than EOF.
	Delivered []byte
	Failed    bool
	EOFSeen   bool
	Swapped   bool
}

func NewFS() *FS { return &FS{Files: map[string]*SimFile{}, Faults: map[string]int{}} }

// Put adds an intact file.
func (f *FS) Put(name string, data []byte) *SimFile {
	x := &SimFile{Data: data, ReadErrAt: -1, SwapAt: -1}
	f.Files[name] = x
	return x
}

// Remove deletes a file; open handles keep working.
func (f *FS) Remove(name string) { delete(f.Files, name) }

var outsideFS = NewFS()

func curFS() *FS {
	if S != nil {
		return S.FS
	}
	return outsideFS
}

// File replaces os.File.
type File struct {
	name   string
	f      *SimFile
	fs     *FS
	off    int
	closed int
	swap   bool
}

// Open is os.Open.
func Open(name string) (*File, error) {
	if S != nil {
		S.point(kindSync, siteOp)
	}
	fsys := curFS()
	x := fsys.Files[name]
	if x == nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	if x.OpenErr != nil {
		fsys.Faults["open"]++
		x.Failed = true
		return nil, &fs.PathError{Op: "open", Path: name, Err: x.OpenErr}
	}
	x.Delivered = nil
	x.Failed = false
	x.EOFSeen = false
	h := &File{name: name, f: x, fs: fsys}
	fsys.Opened++
	fsys.Handles = append(fsys.Handles, h)
	return h, nil
}

// OpenFile is os.OpenFile, for reading only.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) { return Open(name) }

func (h *File) Name() string { return h.name }

func (h *File) content() []byte {
	if h.swap {
		return h.f.Swap
	}
	return h.f.Data
}

func (h *File) Read(p []byte) (int, error) {
	if S != nil {
		S.point(kindSync, siteOp)
	}
	if h == nil {
		return 0, os.ErrInvalid
	}
	if h.closed > 0 {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: fs.ErrClosed}
	}
	if h.f.Dir {
		h.f.Failed = true
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: syscall.EISDIR}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !h.swap && h.f.SwapAt >= 0 && h.off >= h.f.SwapAt {
		h.swap = true
		h.f.Swapped = true
		h.fs.Faults["swap"]++
	}
	data := h.content()
	n := 0
	if h.off < len(data) {
		n = len(data) - h.off
	}
	if n > len(p) {
		n = len(p)
	}
	if h.f.Chunk > 0 && n > 1 && S != nil {
		lim := 1 + S.Choose("short", h.f.Chunk, 1, 1)
		if n > lim {
			n = lim
			h.fs.Faults["short"]++
		}
	}
	if !h.swap && h.f.SwapAt > h.off && h.off+n > h.f.SwapAt {
		n = h.f.SwapAt - h.off
	}
	if h.f.ReadErrAt >= 0 && h.off+n >= h.f.ReadErrAt && !(h.f.ReadErrOnce && h.f.Failed) {
		k := h.f.ReadErrAt - h.off
		if k < 0 {
			k = 0
		}
		if k > n {
			k = n
		}
		if k > 0 && !h.f.ReadErrWithData {
			// deliver up to the offset first, fail on the next read
			n = k
		} else {
			copy(p, data[h.off:h.off+k])
			h.f.Delivered = append(h.f.Delivered, data[h.off:h.off+k]...)
			h.off += k
			h.f.Failed = true
			h.fs.Faults["read"]++
			if _, ok := h.f.ReadErr.(syscall.Errno); !ok {
				return k, h.f.ReadErr
			}
			return k, &fs.PathError{Op: "read", Path: h.name, Err: h.f.ReadErr}
		}
	}
	if n == 0 {
		h.f.EOFSeen = true
		return 0, io.EOF
	}
	copy(p, data[h.off:h.off+n])
	h.f.Delivered = append(h.f.Delivered, data[h.off:h.off+n]...)
	h.off += n
	return n, nil
}

func (h *File) ReadAt(p []byte, off int64) (int, error) {
	if h.closed > 0 {
		return 0, &fs.PathError{Op: "read", Path: h.name, Err: fs.ErrClosed}
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "readat", Path: h.name, Err: syscall.EINVAL}
	}
	old := h.off
	h.off = int(off)
	defer func() { h.off = old }()
	n := 0
	for n < len(p) {
		m, err := h.Read(p[n:])
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		h.off = int(off)
	case io.SeekCurrent:
		h.off += int(off)
	case io.SeekEnd:
		h.off = len(h.content()) + int(off)
	}
	return int64(h.off), nil
}

func (h *File) Close() error {
	if S != nil {
		S.point(kindSync, siteOp)
	}
	if h == nil {
		return os.ErrInvalid
	}
	h.closed++
	if h.closed > 1 {
		return &fs.PathError{Op: "close", Path: h.name, Err: fs.ErrClosed}
	}
	h.fs.Closed++
	if h.f.CloseErr != nil {
		h.fs.Faults["close"]++
		return &fs.PathError{Op: "close", Path: h.name, Err: h.f.CloseErr}
	}
	return nil
}

// Closes tells how often the handle was closed.
func (h *File) Closes() int { return h.closed }

// Leaked are the handles that were never closed.
func (f *FS) Leaked() []string {
	var l []string
	for _, h := range f.Handles {
		if h.closed == 0 {
			l = append(l, h.name)
		}
	}
	sort.Strings(l)
	return l
}

type fileInfo struct {
	name string
	f    *SimFile
	n    int
}

func (i fileInfo) Name() string { return i.name }
func (i fileInfo) Size() int64  { return int64(i.n) }
func (i fileInfo) Mode() fs.FileMode {
	if i.f.Dir {
		return fs.ModeDir | 0755
	}
	return 0644
}
func (i fileInfo) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i fileInfo) IsDir() bool        { return i.f.Dir }
func (i fileInfo) Sys() any           { return nil }

func (h *File) Stat() (fs.FileInfo, error) {
	return fileInfo{h.name, h.f, len(h.content())}, nil
}

// Stat is os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	x := curFS().Files[name]
	if x == nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return fileInfo{name, x, len(x.Data)}, nil
}

// ReadFile is os.ReadFile and ioutil.ReadFile.
func ReadFile(name string) ([]byte, error) {
	h, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	b, err := io.ReadAll(h)
	if err != nil {
		return b, err
	}
	return b, nil
}
