// Package core is the test harness proper: plans (what one simulated execution
// does), their execution against the instrumented program, generators, oracles
// and the search driver.
package core

import (
	"encoding/json"
	"image"
	"unicode/utf8"

	"verifsim/sim"
	"verifsim/simos"
)

// Plan is everything one worker process executes; package state of the program
// persists over its runs.
type Plan struct {
	Prop    string   `json:"property"`
	Seed    uint64   `json:"seed"`
	Batch   int      `json:"batch"`
	Race    bool     `json:"race,omitempty"`
	Runs    []*Run   `json:"runs"`
	Found   []string `json:"violations,omitempty"` // in replay files
	Class   string   `json:"class,omitempty"`
	Hash    string   `json:"history_hash,omitempty"`
	Comment string   `json:"comment,omitempty"`
}

// Run is one simulated execution of a world.
type Run struct {
	Tag     string              `json:"tag,omitempty"`
	Sched   Sched               `json:"sched"`
	Env     map[string]string   `json:"env,omitempty"`
	Files   map[string]*FSpec   `json:"files,omitempty"`
	Dirs    []string            `json:"dirs,omitempty"`
	Modes   map[string]int      `json:"modes,omitempty"` // permissions of files and directories
	Faults  []*simos.Fault      `json:"faults,omitempty"`
	Term    *TSpec              `json:"term,omitempty"`
	CPUs    int                 `json:"cpus,omitempty"`
	Setup   []*Op               `json:"setup,omitempty"`
	Clients [][]*Op             `json:"clients,omitempty"`
	Final   []*Op               `json:"final,omitempty"`
	Fresh   bool                `json:"fresh,omitempty"` // the run begins with a new process: package variables are initialised again
	Group   bool                `json:"group,omitempty"` // the clients are a process of their own, which can be killed
	X       map[string]int      `json:"x,omitempty"`     // property specific
	XS      map[string]string   `json:"xs,omitempty"`
	XL      map[string][]uint64 `json:"xl,omitempty"`
}

// Sched decides interleavings.
type Sched struct {
	Policy string    `json:"policy"`
	Param  uint64    `json:"param,omitempty"`
	Seed   uint64    `json:"seed"`
	Max    uint64    `json:"max,omitempty"`
	KillAt uint64    `json:"kill_at,omitempty"`
	Devs   []sim.Dev `json:"devs,omitempty"`
}

// ArgList is a list of arguments, which may hold any bytes and keep them in JSON.
type ArgList []string

func (l ArgList) MarshalJSON() ([]byte, error) {
	out := make([]any, len(l))
	for i, s := range l {
		out[i] = s
		if !utf8.ValidString(s) {
			out[i] = map[string][]byte{"b": []byte(s)}
		}
	}
	return json.Marshal(out)
}

func (l *ArgList) UnmarshalJSON(b []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(b, &raw); err != nil {
		return err
	}
	*l = make(ArgList, len(raw))
	for i, m := range raw {
		var s string
		if json.Unmarshal(m, &s) != nil {
			var o map[string][]byte
			if err := json.Unmarshal(m, &o); err != nil {
				return err
			}
			s = string(o["b"])
		}
		(*l)[i] = s
	}
	return nil
}

// Op is one operation of a client.
type Op struct {
	K    string         `json:"k"`
	Q    int            `json:"q,omitempty"`
	W    int            `json:"w,omitempty"`
	Req  *Req           `json:"req,omitempty"`
	Wr   *WSpec         `json:"wr,omitempty"`
	Args ArgList        `json:"args,omitempty"`
	JS   []JV           `json:"js,omitempty"`
	N    int            `json:"n,omitempty"`
	S    string         `json:"s,omitempty"`
	F    *FSpec         `json:"f,omitempty"`
	Flt  []*simos.Fault `json:"flt,omitempty"`
	P    *PSpec         `json:"p,omitempty"`
}

// PSpec is a picture to process, and how.
type PSpec struct {
	Share  int      `json:"share,omitempty"` // picture which several clients use
	Last   bool     `json:"last,omitempty"`  // the picture this client got last
	Img    *ImgSpec `json:"img,omitempty"`
	Sub    bool     `json:"sub,omitempty"`   // part of a larger picture
	Yield  int      `json:"yield,omitempty"` // the caller's own kind of picture: a scheduling point in every n-th look
	Thr    int      `json:"thr,omitempty"`
	Rect   [4]int   `json:"rect"`
	Scaler string   `json:"scaler,omitempty"`
}

// Req is a request to build a symbol.
type Req struct {
	Text []byte `json:"text"`
	Kind string `json:"kind,omitempty"` // s (default), b, ns, nb
	New  bool   `json:"new,omitempty"`  // New instead of NewWith
	Opts []EOpt `json:"opts,omitempty"`
	// Share: the option values (1), or the list of them (2), are made once and
	// given to every request of the process which shares
	Share int `json:"share_opts,omitempty"`
}

// EOpt is an encoding option: mode, ec, ver, minver.
type EOpt struct {
	K string `json:"k"`
	V int    `json:"v"`
}

// WSpec says which writer to use.
type WSpec struct {
	Kind  string   `json:"kind"` // std stdfile comp compfile file term rec nil
	Path  string   `json:"path,omitempty"`
	Opts  []IOpt   `json:"opts,omitempty"`
	Pad   int      `json:"pad,omitempty"`
	Block int      `json:"block,omitempty"`
	Sink  SinkSpec `json:"sink"`
	Seek  bool     `json:"seek,omitempty"`  // sink is a *os.File handle
	Nil   bool     `json:"nil,omitempty"`   // file writer without a file
	Share int      `json:"share,omitempty"` // options made once by mkopts and used by several writers
	Disk  []DFault `json:"disk,omitempty"`  // faults of the file system on Path
}

// DFault is a disk fault on the path of a writer. Per is the place in the
// output, in thousandths of what an undisturbed save writes.
type DFault struct {
	Op    string `json:"op"`
	Nth   int    `json:"nth,omitempty"`
	Per   int    `json:"per,omitempty"`
	Err   string `json:"err,omitempty"`
	Times int    `json:"times,omitempty"`
	Kill  bool   `json:"kill,omitempty"`
}

// Key identifies what the bytes of an output may depend on.
func (w *WSpec) Key() string {
	k := *w
	k.Sink, k.Path, k.Seek, k.Disk, k.Share = SinkSpec{}, "", false, nil, 0
	switch k.Kind {
	case "stdfile":
		k.Kind = "std"
	case "compfile":
		k.Kind = "comp"
	}
	b, _ := json.Marshal(&k)
	return string(b)
}

// IOpt is an option of the standard writer.
type IOpt struct {
	K  string    `json:"k"`
	I  []int     `json:"i,omitempty"`
	S  string    `json:"s,omitempty"`
	C  []uint8   `json:"c,omitempty"`
	F  []float64 `json:"f,omitempty"`
	M  *ImgSpec  `json:"m,omitempty"`
	F2 string    `json:"f2,omitempty"` // worldimg: the file

	img image.Image // worldimg: what the file at S held
}

// SinkSpec describes the byte sink behind a writer (or the writer itself, for
// kind rec) and how it fails.
type SinkSpec struct {
	FailNth     int    `json:"fail_nth,omitempty"` // n-th write call
	FailAt      int64  `json:"fail_at,omitempty"`  // write which crosses byte FailAt-1
	Per         int    `json:"per,omitempty"`      // FailAt in thousandths of an undisturbed output
	Take        bool   `json:"take,omitempty"`     // accept the part before the fault, and report it
	Once        bool   `json:"once,omitempty"`     // later writes succeed again
	Panic       bool   `json:"panic,omitempty"`    // panic instead of an error
	PanicV      string `json:"panic_v,omitempty"`  // with what kind of value
	Full        bool   `json:"full,omitempty"`     // accept everything and still report an error
	Err         string `json:"err,omitempty"`
	CloseErr    string `json:"close_err,omitempty"`
	Yield       int    `json:"yield,omitempty"`     // scheduling points in each write
	NoErrClosed bool   `json:"keep_open,omitempty"` // stays usable after Close
	Meet        bool   `json:"meet,omitempty"`      // the first write lasts until the next client is done
	In          []*Op  `json:"in,omitempty"`        // what the destination does with the library when it is first called
	InAt        string `json:"in_at,omitempty"`     // when: "" write, close, iter (of a matrix), enc (by a custom encoder), draw (by a custom shape)
}

// ImgSpec describes a generated picture.
type ImgSpec struct {
	Kind string `json:"kind"` // noise gray solid alpha paletted check
	W    int    `json:"w"`
	H    int    `json:"h"`
	X    int    `json:"x,omitempty"` // bounds origin
	Y    int    `json:"y,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
}

// FSpec describes the content of a file.
type FSpec struct {
	Raw   []byte   `json:"raw,omitempty"`
	Img   *ImgSpec `json:"img,omitempty"`
	Fmt   string   `json:"fmt,omitempty"` // png jpeg gif
	Trunc int      `json:"trunc,omitempty"`
	Flip  []int    `json:"flip,omitempty"` // bit positions
	Fill  int      `json:"fill,omitempty"` // that many filler bytes
	Pad   int      `json:"pad,omitempty"`  // zeroes after it, up to that length
}

// TSpec scripts the terminal.
type TSpec struct {
	W        int    `json:"w"`
	H        int    `json:"h"`
	Events   []TEv  `json:"events,omitempty"`
	AutoKey  bool   `json:"auto_key,omitempty"`
	InitErr  string `json:"init_err,omitempty"`
	FlushErr string `json:"flush_err,omitempty"`
	FlushNth int    `json:"flush_nth,omitempty"`
	Press    string `json:"press,omitempty"` // what the user presses in the end, see TEv
}

// TEv is a terminal event: key resize mouse error interrupt none.
type TEv struct {
	K string `json:"k"`
	W int    `json:"w,omitempty"`
	H int    `json:"h,omitempty"`
	P string `json:"p,omitempty"` // key: a character, or the number of a key such as #13
}

// JV is a JavaScript value: undef null bool num nan str obj arr sym func.
type JV struct {
	T     string        `json:"t"`
	B     bool          `json:"b,omitempty"`
	N     float64       `json:"n,omitempty"`
	S     string        `json:"s,omitempty"`
	O     map[string]JV `json:"o,omitempty"`
	A     []JV          `json:"a,omitempty"`
	Throw []string      `json:"throw,omitempty"` // properties whose getter throws
}

func clone[T any](v T) T {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var out T
	if err := json.Unmarshal(b, &out); err != nil {
		panic(err)
	}
	return out
}
