// +build testing

package app

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	abci "github.com/tendermint/tendermint/abci/types"
	dbm "github.com/tendermint/tm-db"
)

// A node in a process of its own, with its database on disk: what it keeps in memory is gone when it is killed.

type nodeReq struct {
	K    string  `json:"k"`
	Gen  *GenCfg `json:"gen,omitempty"`
	Dir  string  `json:"dir,omitempty"`
	Kind string  `json:"kind,omitempty"`
	Bz   []byte  `json:"bz,omitempty"`
	Now  int64   `json:"now,omitempty"`
	H    int64   `json:"h,omitempty"`
}
type nodeRes struct {
	Ans    string `json:"ans"`
	Hash   string `json:"hash"`
	Stores string `json:"stores"`
	Height int64  `json:"height"`
	Bz     []byte `json:"bz"`
	Upd    []byte `json:"upd"`
	Err    string `json:"err"`
}

func init() { drivers["node"] = runNode }

func runNode(t *testing.T, job Job) {
	in, out := json.NewDecoder(os.NewFile(3, "in")), json.NewEncoder(os.NewFile(4, "out"))
	time.Local = time.FixedZone("elsewhere", 5*3600+1800)
	patchClock()
	atomic.StoreInt64(&clockShift, 1000*86400+12345)
	var w *World
	for {
		var q nodeReq
		if in.Decode(&q) != nil {
			return
		}
		_ = out.Encode(serve(&w, q))
	}
}

func openDB(dir string) dbm.DB {
	db, err := dbm.NewGoLevelDB("application", dir)
	if err != nil {
		panic(err)
	}
	return db
}

func serve(pw **World, q nodeReq) (res nodeRes) {
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprint(r)
			if len(res.Err) > 300 {
				res.Err = res.Err[:300]
			}
		}
	}()
	w := *pw
	switch q.K {
	case "new":
		*pw = newWorldOn(*q.Gen, openDB(q.Dir))
	case "open":
		*pw = &World{gen: *q.Gen, base: genesisBase(), db: openDB(q.Dir)}
		w = *pw
		w.initNames(*q.Gen)
		w.Restart()
		info := w.app.Info(abci.RequestInfo{})
		res.Height, res.Hash = info.LastBlockHeight, hex.EncodeToString(info.LastBlockAppHash)
		w.h = info.LastBlockHeight
	case "import":
		*pw = &World{gen: *q.Gen, base: genesisBase(), db: openDB(q.Dir), now: time.Unix(0, q.Now).UTC(), h: q.H}
		w = *pw
		w.initNames(*q.Gen)
		upd, err := w.importOn(w.db, q.Bz)
		if err != nil {
			res.Err = err.Error()
			return
		}
		res.Upd, _ = (&abci.ResponseEndBlock{ValidatorUpdates: upd}).Marshal()
	case "export":
		exp, err := w.ExportJSON()
		if err != nil {
			res.Err = err.Error()
		}
		res.Bz = exp
	case "call":
		var req interface{}
		switch q.Kind {
		case "b":
			var r abci.RequestBeginBlock
			must(r.Unmarshal(q.Bz))
			req = r
		case "t":
			var r abci.RequestDeliverTx
			must(r.Unmarshal(q.Bz))
			req = r
		case "e":
			var r abci.RequestEndBlock
			must(r.Unmarshal(q.Bz))
			req = r
		}
		res.Ans = callSafe(w, req)
	case "check":
		w.app.CheckTx(abci.RequestCheckTx{Tx: q.Bz, Type: abci.CheckTxType_New})
	case "sim":
		_, _, _ = w.app.Simulate(q.Bz)
	case "commit":
		res.Hash = hex.EncodeToString(w.Commit())
		res.Height = w.app.LastBlockHeight()
		res.Stores = digest(storesW(w, w.ctx()))
	}
	return
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// proc is the near end of such a node.
type proc struct {
	cmd  *exec.Cmd
	in   *json.Encoder
	out  *json.Decoder
	pipe []*os.File
	job  string
	dir  string // of the database
	gen  GenCfg
	h    int64 // committed height
}

func startProc(scratch string, gen GenCfg) *proc {
	dir, err := ioutil.TempDir(scratch, "node-")
	must(err)
	p := &proc{dir: dir, gen: gen, job: filepath.Join(dir, "job.json")}
	must(ioutil.WriteFile(p.job, []byte(`{"driver":"node"}`), 0o600))
	p.spawn()
	return p
}

func (p *proc) spawn() {
	r1, w1, err := os.Pipe()
	must(err)
	r2, w2, err := os.Pipe()
	must(err)
	p.cmd = exec.Command(os.Args[0], "-test.run", "^TestVerif$", "-test.timeout", "0")
	p.cmd.Env = append(os.Environ(), "VERIF_JOB="+p.job)
	p.cmd.ExtraFiles = []*os.File{r1, w2}
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if os.Getenv("VERIF_STACK") != "" {
		p.cmd.Stderr, p.cmd.Stdout = os.Stderr, os.Stderr
	}
	must(p.cmd.Start())
	_, _ = r1.Close(), w2.Close()
	p.in, p.out, p.pipe = json.NewEncoder(w1), json.NewDecoder(r2), []*os.File{w1, r2}
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
	for _, f := range p.pipe {
		_ = f.Close()
	}
}

func (p *proc) drop() {
	p.kill()
	_ = os.RemoveAll(p.dir)
}

func (p *proc) ask(q nodeReq) (res nodeRes) {
	must(p.in.Encode(q))
	if err := p.out.Decode(&res); err != nil {
		return nodeRes{Err: "the node died: " + err.Error(), Ans: "the node died"}
	}
	return
}

func (p *proc) data() string { return filepath.Join(p.dir, "data") }

func (p *proc) start() nodeRes { return p.ask(nodeReq{K: "new", Gen: &p.gen, Dir: p.data()}) }

func (p *proc) reopen() nodeRes {
	p.kill()
	p.spawn()
	return p.ask(nodeReq{K: "open", Gen: &p.gen, Dir: p.data()})
}

// again exports what the node has committed, and starts a new chain from that in a new process.
func (p *proc) again(now time.Time, h int64) (exp []byte, upd []abci.ValidatorUpdate, err string) {
	e := p.ask(nodeReq{K: "export"})
	if e.Err != "" {
		return e.Bz, nil, e.Err
	}
	p.kill()
	must(os.RemoveAll(p.data()))
	p.spawn()
	r := p.ask(nodeReq{K: "import", Gen: &p.gen, Dir: p.data(), Bz: e.Bz, Now: now.UnixNano(), H: h})
	var up abci.ResponseEndBlock
	if r.Err == "" {
		must(up.Unmarshal(r.Upd))
	}
	p.h = 0
	return e.Bz, up.ValidatorUpdates, r.Err
}

func (p *proc) call(req interface{}) string {
	var q nodeReq
	var err error
	switch r := req.(type) {
	case abci.RequestBeginBlock:
		q.Kind = "b"
		q.Bz, err = r.Marshal()
	case abci.RequestDeliverTx:
		q.Kind = "t"
		q.Bz, err = r.Marshal()
	case abci.RequestEndBlock:
		q.Kind = "e"
		q.Bz, err = r.Marshal()
	}
	must(err)
	q.K = "call"
	return p.ask(q).Ans
}
