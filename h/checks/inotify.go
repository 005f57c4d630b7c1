package checks

import (
	"bytes"
	"io/fs"
	"path/filepath"
	"syscall"
	"time"
	"unsafe"
)

// watcher counts how often each file below a directory is opened.
type watcher struct {
	fd   int
	dirs map[int32]string
}

func watch(root string) *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	w := &watcher{fd, map[int32]string{}}
	ok := true
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			wd, err := syscall.InotifyAddWatch(fd, p, syscall.IN_OPEN)
			if err != nil {
				ok = false
				return err
			}
			w.dirs[int32(wd)] = p
		}
		return nil
	})
	if !ok {
		syscall.Close(fd)
		return nil
	}
	return w
}

// counts ends the watch; nil if events were lost.
func (w *watcher) counts() map[string]int {
	defer syscall.Close(w.fd)
	out := map[string]int{}
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err == syscall.EINTR {
			time.Sleep(time.Millisecond)
			continue
		}
		if err != nil || n <= 0 {
			return out
		}
		for off := 0; off+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
			name := string(bytes.TrimRight(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(e.Len)], "\x00"))
			off += syscall.SizeofInotifyEvent + int(e.Len)
			if e.Mask&syscall.IN_Q_OVERFLOW != 0 {
				return nil
			}
			if e.Mask&syscall.IN_ISDIR == 0 && name != "" {
				out[filepath.Join(w.dirs[e.Wd], name)]++
			}
		}
	}
}
