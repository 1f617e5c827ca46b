package chunkfs

import (
	"archive/zip"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	serr "github.com/solarisdb/solaris/golibs/errors"
)

// a remote storage in memory, whose operations can be made to fail
type p17Store struct {
	m         map[string][]byte
	failPut   bool
	failDel   bool
	failGet   bool
	ops       int
	delFailed bool
}

func (s *p17Store) Get(ctx context.Context, key string) (io.ReadCloser, error) {
	s.ops++
	b, ok := s.m[key]
	if s.failGet {
		return nil, errors.New("get fails")
	}
	if !ok {
		return nil, serr.ErrNotExist
	}
	return io.NopCloser(bytes.NewReader(b)), nil
}

func (s *p17Store) Put(ctx context.Context, key string, r io.Reader) error {
	s.ops++
	if s.failPut {
		return errors.New("put fails")
	}
	b, err := io.ReadAll(io.LimitReader(r, 1<<20))
	if err != nil {
		return err
	}
	s.m[key] = b
	return nil
}

func (s *p17Store) List(ctx context.Context, path string) ([]string, error) { return nil, nil }

func (s *p17Store) Delete(ctx context.Context, key string) error {
	s.ops++
	if s.failDel {
		return errors.New("delete fails")
	}
	delete(s.m, key)
	return nil
}

// remoteHas tells whether the remote storage has a zip of the content under the chunk's key
func (s *p17Store) remoteHas(cID string, content []byte) bool {
	b, ok := s.m[getStorageKey(cID)]
	if !ok {
		return false
	}
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil || len(zr.File) == 0 {
		return false
	}
	f, err := zr.File[0].Open()
	if err != nil {
		return false
	}
	got, err := io.ReadAll(f)
	return err == nil && bytes.Equal(got, content)
}

// TestVerifRemoval runs removals, uploads and clean-ups with failing operations and looks for lost data.
func TestVerifRemoval(t *testing.T) {
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 10000
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rnd := rand.New(rand.NewSource(seed))
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n := 0
	for time.Now().Before(end) {
		n++
		if bad := p17Run(t, rnd); bad != "" {
			fmt.Println("COUNTEREXAMPLE: " + bad)
			t.Fatal(bad)
		}
	}
	fmt.Printf("EVALUATIONS: %d\n", n)
}

func p17Run(t *testing.T, rnd *rand.Rand) (bad string) {
	dir, err := os.MkdirTemp("", "p17")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	st := &p17Store{m: map[string][]byte{}}
	p := NewProvider(dir, 2, Config{})
	ca := NewChunkAccessor()
	r := NewReplicator(p.GetFileNameByID)
	r.Storage, r.CA = st, ca
	p.Replicator, p.CA = r, ca
	ids := []string{"AAAAAAAAAAAAAAAAAAAAAAAAA1", "AAAAAAAAAAAAAAAAAAAAAAAAA2", "AAAAAAAAAAAAAAAAAAAAAAABA1"}
	var log []string
	content := map[string][]byte{} // what each chunk held locally; nil: no local file
	write := func(id string) {
		var b []byte
		switch rnd.Intn(4) {
		case 0:
			b = []byte{}
		case 1:
			b = make([]byte, 1+rnd.Intn(20000))
			rnd.Read(b)
		default:
			b = []byte(fmt.Sprint("data", rnd.Intn(1000)))
		}
		fn := p.GetFileNameByID(id)
		os.MkdirAll(filepath.Dir(fn), 0o755)
		if err := os.WriteFile(fn, b, 0o644); err != nil {
			t.Fatal(err)
		}
		content[id] = b
		log = append(log, fmt.Sprintf("%s: %d bytes", id[24:], len(b)))
	}
	for _, id := range ids {
		if rnd.Intn(3) > 0 {
			write(id)
		}
	}
	defer func() {
		if e := recover(); e != nil {
			bad = strings.Join(log, "; ") + fmt.Sprintf(": panic %v", e)
		}
	}()
	local := func(id string) []byte {
		b, err := os.ReadFile(p.GetFileNameByID(id))
		if err != nil {
			return nil
		}
		if b == nil {
			b = []byte{}
		}
		return b
	}
	for s := 0; s < 6; s++ {
		id := ids[rnd.Intn(len(ids))]
		fn := p.GetFileNameByID(id)
		st.failPut, st.failDel, st.failGet = rnd.Intn(3) == 0, rnd.Intn(3) == 0, rnd.Intn(3) == 0
		zfault := rnd.Intn(5)
		os.MkdirAll(filepath.Dir(fn), 0o755)
		if zfault == 0 {
			os.Symlink("/dev/full", fn+".zip") // the zip file cannot be written
		} else if zfault == 1 {
			os.MkdirAll(filepath.Join(fn+".zip", "x"), 0o755) // nor created
		}
		use := rnd.Intn(6) // who uses the chunk meanwhile
		switch use {
		case 0:
			if err := ca.openChunk(ctx, id); err != nil {
				return strings.Join(log, "; ") + ": the chunk cannot be opened: " + err.Error()
			}
		case 1:
			ca.setDeleting(id)
		}
		before := map[string][]byte{}
		for _, i := range ids {
			before[i] = local(i)
		}
		remote := map[string][]byte{}
		for k, v := range st.m {
			remote[k] = v
		}
		ops := st.ops
		setup := fmt.Sprintf("[used %d, failing put %t delete %t get %t zip %d]", use, st.failPut, st.failDel, st.failGet, zfault)
		what := ""
		var err error
		flags := 0
		kind := rnd.Intn(6)
		switch kind {
		case 0, 1, 2:
			flags = rnd.Intn(4)
			if kind == 0 {
				flags = RFRemoteSync
			}
			what = fmt.Sprintf("%s DeleteChunk(%s, %d)", setup, id[24:], flags)
			log = append(log, what)
			err = r.DeleteChunk(ctx, id, flags)
		case 3:
			what = fmt.Sprintf("%s UploadChunk(%s)", setup, id[24:])
			log = append(log, what)
			if use == 1 {
				// refused
			}
			err = r.UploadChunk(ctx, id)
		case 4:
			what = fmt.Sprintf("%s DeleteFileIfEmpty(%s)", setup, id[24:])
			log = append(log, what)
			p.DeleteFileIfEmpty(id)
		case 5:
			what = fmt.Sprintf("%s sweep", setup)
			log = append(log, what)
			sc := NewScanner(r, ScannerConfig{SweepMaxThresholdSize: 1, SweepMinThresholdSize: int64(rnd.Intn(2) * 10)})
			sis := newScanInfos()
			for _, i := range ids {
				if b := local(i); b != nil && filepath.Dir(p.GetFileNameByID(i)) == filepath.Dir(fn) {
					si := scanInfo{ID: i, size: int64(len(b)), Mtime: time.Now().Add(time.Duration(rnd.Intn(1000)) * time.Second)}
					if rnd.Intn(2) == 0 {
						at := time.Now().Add(time.Duration(rnd.Intn(1000)) * time.Second)
						si.SyncTime = &at
					}
					sis[i] = si
				}
			}
			sc.sweep(ctx, filepath.Dir(fn), sis)
		}
		hist := func() string { return strings.Join(log, "; ") + ": " }
		for _, i := range ids {
			after := local(i)
			b := before[i]
			if b == nil {
				if after != nil {
					return hist() + "a local file appeared"
				}
				continue
			}
			if after != nil {
				if !bytes.Equal(after, b) {
					return hist() + "the local content changed"
				}
				continue
			}
			// removed
			if i != id && kind != 5 {
				return hist() + "another chunk's file is gone"
			}
			switch kind {
			case 0, 1, 2:
				if flags&RFRemoteSync != 0 && len(b) > 0 && !st.remoteHas(i, b) {
					return hist() + fmt.Sprintf("the local file is gone and the remote storage has no copy (result %v)", err)
				}
			case 3:
				return hist() + "an upload removed the local file"
			case 4:
				if len(b) > 0 {
					return hist() + "a file which is not empty was removed"
				}
			case 5:
				if len(b) > 0 && !st.remoteHas(i, b) {
					return hist() + "sweeping removed the only copy of " + i[24:]
				}
			}
			if i == id && use <= 1 {
				return hist() + "a chunk in use was removed"
			}
		}
		if kind <= 2 {
			if flags == 3 || use <= 1 {
				if err == nil {
					return hist() + "accepted"
				}
				if st.ops != ops {
					return hist() + "refused, but the remote storage was touched"
				}
			}
			if err == nil && local(id) != nil {
				return hist() + "reported as deleted, but the file is there"
			}
			if err == nil && flags&RFRemoteDelete != 0 {
				if _, ok := st.m[getStorageKey(id)]; ok {
					return hist() + "reported as deleted, but the remote copy is there"
				}
			}
		}
		if kind == 3 && err == nil && len(before[id]) > 0 && !st.remoteHas(id, before[id]) {
			return hist() + "reported as uploaded, but the remote storage has no copy"
		}
		for k, v := range remote {
			if w, ok := st.m[k]; !ok && !(kind <= 2 && flags == RFRemoteDelete && k == getStorageKey(id)) {
				return hist() + "a remote copy is gone"
			} else if ok && !bytes.Equal(v, w) && kind != 5 && k != getStorageKey(id) {
				return hist() + "another remote copy changed"
			}
		}
		// the access right is given back, and only when it was taken
		switch use {
		case 0:
			if ca.setDeleting(id) {
				return hist() + "the open chunk is not recorded as open any more"
			}
			if err := ca.closeChunk(id); err != nil {
				return hist() + "the open chunk cannot be closed: " + err.Error()
			}
		case 1:
			if ca.setDeleting(id) {
				return hist() + "the chunk being deleted is granted again"
			}
			ca.SetIdle(id)
		}
		for _, i := range ids {
			if !ca.setDeleting(i) {
				return hist() + "the access right of " + i[24:] + " is not given back"
			}
			ca.SetIdle(i)
		}
		os.RemoveAll(fn + ".zip")
		if rnd.Intn(3) == 0 {
			write(id)
		}
	}
	return ""
}
