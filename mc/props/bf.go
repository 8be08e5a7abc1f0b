package props

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/verifmc/core"
)

// A loopback proxy stands in for the network: the code under test talks HTTPS to Blockfrost through it (the
// proxy and its certificate authority are given in the environment), so whatever host it asks for is seen.

// bfReq is a request as it arrived.
type bfReq struct {
	Method, Host, Path string // Host: the CONNECT target
	HostHeader         string
	Query              url.Values
	Header             http.Header
	Body               []byte
}

// bfAns is what the stand-in server does with a request.
type bfAns struct {
	Status int
	Body   string
	Type   string
	Header map[string]string
	Short  bool // announce more bytes than are sent, then close
	Close  bool // close without an answer
}

type bfServer struct {
	mu      sync.Mutex
	byID    map[string]func(bfReq) bfAns // by project id
	current func(bfReq) bfAns
	seen    []bfReq
}

var (
	bfOnce sync.Once
	bf     bfServer
)

func bfStart() {
	bfOnce.Do(func() {
		bf.byID = map[string]func(bfReq) bfAns{}
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif stand-in"}, NotBefore: time.Now().Add(-time.Hour * 48), NotAfter: time.Now().Add(time.Hour * 240),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
			DNSNames: []string{"blockfrost.io", "*.blockfrost.io", "*.io", "*.com", "*.org"}}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		must(err)
		f := filepath.Join(workDir(), "ca.pem")
		must(os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644))
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		os.Setenv("SSL_CERT_FILE", f)
		os.Setenv("SSL_CERT_DIR", filepath.Join(workDir(), "no-certs"))
		for _, v := range []string{"HTTPS_PROXY", "https_proxy", "HTTP_PROXY", "http_proxy"} {
			os.Setenv(v, "http://"+l.Addr().String())
		}
		for _, v := range []string{"NO_PROXY", "no_proxy", "REQUEST_METHOD", "ALL_PROXY", "BLOCKFROST_PROJECT_ID"} {
			os.Unsetenv(v)
		}
		cfg := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, NextProtos: []string{"http/1.1"}}
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go bfConn(c, cfg)
			}
		}()
	})
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func bfConn(c net.Conn, cfg *tls.Config) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	target := req.Host
	if req.Method != http.MethodConnect {
		// plain HTTP through the proxy: not what any operation should do, but record it
		bfServe(c, req, "plain http://"+target)
		return
	}
	io.WriteString(c, "HTTP/1.1 200 Connection established\r\n\r\n")
	t := tls.Server(c, cfg)
	if t.Handshake() != nil {
		return
	}
	br := bufio.NewReader(t)
	for {
		inner, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		if !bfServe(t, inner, target) {
			break
		}
	}
	t.CloseWrite()
}

// bfServe answers one request and says whether the connection stays open: it does for project ids starting with "keep-".
func bfServe(w io.Writer, req *http.Request, target string) bool {
	body, err := io.ReadAll(req.Body)
	if err != nil {
		body = append(body, []byte("(cut short)")...)
	}
	r := bfReq{req.Method, target, req.URL.Path, req.Host, req.URL.Query(), req.Header, body}
	bf.mu.Lock()
	f := bf.byID[strings.Join(req.Header.Values("Project_id"), ",")]
	if f == nil {
		f = bf.current
		bf.seen = append(bf.seen, r)
	}
	bf.mu.Unlock()
	if f == nil {
		return false
	}
	a := f(r)
	if a.Close {
		return false
	}
	keep := strings.HasPrefix(req.Header.Get("Project_id"), "keep-") && !a.Short
	n := len(a.Body)
	if a.Short {
		n += 10
	}
	ty := a.Type
	if ty == "" {
		ty = "application/json"
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\nContent-Type: %s\r\n", a.Status, http.StatusText(a.Status), ty)
	if !keep {
		b.WriteString("Connection: close\r\n")
	}
	for k, v := range a.Header {
		fmt.Fprintf(&b, "%s: %s\r\n", k, v)
	}
	if a.Status == 204 || a.Status == 304 {
		b.WriteString("\r\n")
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", n, a.Body)
	}
	w.Write(b.Bytes())
	return keep
}

// with runs f with the given server behaviour and returns the requests it made.
func (s *bfServer) with(h func(bfReq) bfAns, f func()) []bfReq {
	s.mu.Lock()
	s.current, s.seen = h, nil
	s.mu.Unlock()
	f()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.current = nil
	return s.seen
}

// bfNet: 0 and 1 are the default networks, the others test networks of other magics (0, 1, 2, 42, ...).
func bfNet(n int) *network.NetworkInfo {
	if n < 2 {
		return netOf(byte(n))
	}
	return &network.NetworkInfo{NetworkId: 0, ProtocolMagic: bfMagics[n-2]}
}

var bfMagics = []uint32{0, 1, 2, 42, 764824073, 1<<32 - 1}

func bfHost(n int) string {
	if n == 1 {
		return "cardano-mainnet.blockfrost.io:443"
	}
	return "cardano-testnet.blockfrost.io:443"
}

func wantReq(r bfReq, netID int, method, path, project string) error {
	if r.Host != bfHost(netID) || r.HostHeader != strings.TrimSuffix(bfHost(netID), ":443") {
		return errf("the request went to %s (Host %s), want %s", r.Host, r.HostHeader, bfHost(netID))
	}
	if r.Method != method || r.Path != path {
		return errf("the request was %s %s, want %s %s", r.Method, r.Path, method, path)
	}
	if p := r.Header.Values("Project_id"); len(p) != 1 || p[0] != project {
		return errf("the request carries project id %q, want %q", p, project)
	}
	return nil
}

// ---- C24: UTXOs ----

// BfUtxo is an entry the server lists.
type BfUtxo struct {
	Hash QS
	Ix   QS // JSON
	Amt  [][2]QS
}

// BfList is a UTXO query.
type BfList struct {
	Net     int
	Addr    int
	Count   int    // number of generated entries
	Special BfUtxo // when its hash is set, replaces entry At
	At      int
	Fail    bool // the special entry is malformed
	// a fault on page FaultPage (from 1; 0: none)
	FaultPage int
	Fault     bfAns
	Project   string
	Twice     bool
}

func (u BfUtxo) json() string {
	var am []string
	for _, a := range u.Amt {
		am = append(am, fmt.Sprintf(`{"unit":%q,"quantity":%q}`, string(a[0]), string(a[1])))
	}
	return fmt.Sprintf(`{"tx_hash":%q,"tx_index":%s,"output_index":%s,"amount":[%s],"block":"7eb8","data_hash":null}`, string(u.Hash), u.Ix, u.Ix, strings.Join(am, ","))
}

const asset = "b0d07d45fe9514f80213f4020e5a61241458be626841cde717cb38a76e7574636f696e"

func genUtxo(i int) BfUtxo {
	am := [][2]QS{{"lovelace", QS(fmt.Sprint(uint64(i+1) * 1_000_037))}}
	switch i % 3 {
	case 1:
		am = append(am, [2]QS{asset, "12"}, [2]QS{asset + "01", "99999999999999999999999"})
	case 2:
		am = append([][2]QS{{asset, "5"}}, am...)
	}
	return BfUtxo{QS(hex.EncodeToString(inHash(i))), QS(fmt.Sprint(i % 300)), am}
}

func (c BfList) entries() []BfUtxo {
	var l []BfUtxo
	for i := 0; i < c.Count; i++ {
		l = append(l, genUtxo(i))
	}
	if c.Special.Hash != "" || c.Special.Ix != "" {
		l[c.At] = c.Special
	}
	return l
}

// serve is the model of the endpoint: count (1..100, default 100), page (from 1), order.
func (c BfList) serve(text string) func(bfReq) bfAns {
	list := c.entries()
	return func(r bfReq) bfAns {
		count, page := 100, 1
		if v := r.Query.Get("count"); v != "" {
			k, err := strconv.Atoi(v)
			if err != nil || k < 1 || k > 100 {
				return bfAns{Status: 400, Body: `{"error":"Bad Request","message":"count","status_code":400}`}
			}
			count = k
		}
		if v := r.Query.Get("page"); v != "" {
			k, err := strconv.Atoi(v)
			if err != nil || k < 1 {
				return bfAns{Status: 400, Body: `{"error":"Bad Request","message":"page","status_code":400}`}
			}
			page = k
		}
		l := append([]BfUtxo{}, list...)
		if r.Query.Get("order") == "desc" {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		if r.Path != "/api/v0/addresses/"+text+"/utxos" {
			return bfAns{Status: 404, Body: `{"error":"Not Found","message":"The requested component has not been found.","status_code":404}`}
		}
		a, b := (page-1)*count, page*count
		if a > len(l) {
			a = len(l)
		}
		if b > len(l) {
			b = len(l)
		}
		var out []string
		for _, u := range l[a:b] {
			out = append(out, u.json())
		}
		body := "[" + strings.Join(out, ",") + "]"
		if page == c.FaultPage {
			f := c.Fault
			if f.Body == "(page)" {
				f.Body = body
			}
			if strings.HasPrefix(f.Body, "(cut ") {
				k, _ := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(f.Body, "(cut "), ")"))
				if k > len(body)-1 {
					k = len(body) - 1
				}
				f.Body = body[:k]
			}
			return f
		}
		return bfAns{Status: 200, Body: body}
	}
}

func checkBfList(c BfList, n *core.Counter) error {
	bfStart()
	addr := mustAddr(histAddrs[c.Addr])
	nd := node.NewBlockfrostClient(c.Project, bfNet(c.Net))
	list := c.entries()
	for round := 0; round < 2; round++ {
		if round == 1 && !c.Twice {
			break
		}
		var got []struct {
			h   string
			ix  uint16
			amt uint
		}
		var err error
		reqs := bf.with(c.serve(addr.String()), func() {
			res, e := nd.UTXOs(addr)
			err = e
			for _, u := range res {
				got = append(got, struct {
					h   string
					ix  uint16
					amt uint
				}{hex.EncodeToString(u.TxHash), u.Index, u.Amount})
			}
		})
		n.Op(len(reqs))
		if len(reqs) == 0 {
			return errf("no request was made (%v)", err)
		}
		for _, r := range reqs {
			if e := wantReq(r, c.Net, "GET", "/api/v0/addresses/"+addr.String()+"/utxos", c.Project); e != nil {
				return e
			}
		}
		if c.FaultPage > 0 || c.Fail {
			n.Outcome("refused")
			if err == nil {
				return errf("no error (%d entries of %d returned)", len(got), c.Count)
			}
			continue
		}
		n.Outcome("listed")
		n.StateS(fmt.Sprint(got))
		if err != nil {
			return errf("the query fails: %v", err)
		}
		if len(got) != len(list) {
			return errf("%d entries, the address has %d", len(got), len(list))
		}
		for i, u := range list {
			amt := ""
			for _, a := range u.Amt {
				if a[0] == "lovelace" {
					amt = string(a[1])
				}
			}
			if got[i].h != string(u.Hash) || fmt.Sprint(got[i].ix) != string(u.Ix) || fmt.Sprint(got[i].amt) != amt {
				return errf("entry %d is %v, want %s", i, got[i], u.json())
			}
		}
	}
	return nil
}

func errBody(k int) string {
	return fmt.Sprintf(`{"error":"Some","message":"text","status_code":%d}`, k)
}

func genBfList(r *core.Run, yield func(BfList)) {
	proj := "mainnetAbCdEf0123456789"
	for netID := 0; netID < 2; netID++ {
		for a := range histAddrs {
			yield(BfList{Net: netID, Addr: a, Count: 3, Project: fmt.Sprint("project", a), Twice: true})
		}
		var counts []int
		if r.Thorough() {
			for k := 0; k <= 420; k++ {
				counts = append(counts, k)
			}
			counts = append(counts, 1000, 1001, 20_001, 50_000)
		} else {
			counts = []int{0, 1, 2, 3, 5, 10, 49, 50, 51, 98, 99, 100, 101, 102, 150, 198, 199, 200, 201, 202, 299, 300, 301, 399, 400, 401, 999, 1000, 1001}
			if netID == 1 {
				counts = append(counts, 20_001)
			}
		}
		r.Param("blockfrost.entry_counts", len(counts))
		for _, k := range counts {
			yield(BfList{Net: netID, Count: k, Project: proj})
		}
	}
	for k := range bfMagics {
		yield(BfList{Net: 2 + k, Count: 101, Project: proj, Twice: true})
	}
	// entry values
	for _, ix := range []QS{"0", "1", "255", "256", "32767", "32768", "65535"} {
		for _, a := range []QS{"0", "1", "999999", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615"} {
			u := genUtxo(0)
			u.Ix, u.Amt[0][1] = ix, a
			yield(BfList{Net: 1, Count: 1, Special: u, Project: proj})
		}
	}
	// position of the lovelace entry among assets
	for _, k := range []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 33, 64} {
		for p := 0; p <= k; p++ {
			u := genUtxo(0)
			u.Amt = nil
			for i := 0; i <= k; i++ {
				if i == p {
					u.Amt = append(u.Amt, [2]QS{"lovelace", "7654321"})
				} else {
					u.Amt = append(u.Amt, [2]QS{QS(asset + fmt.Sprint(i)), QS(fmt.Sprint(1000 + i))})
				}
			}
			yield(BfList{Net: 0, Count: 2, At: 1, Special: u, Project: proj})
		}
	}
	// units that are not lovelace, however close
	for _, unit := range []QS{"Lovelace", "LOVELACE", "lovelac", "lovelace2", "ada", "", "6c6f76656c616365", " lovelace"} {
		u := genUtxo(0)
		u.Amt = [][2]QS{{unit, "77"}, {"lovelace", "7654321"}, {unit, "78"}}
		yield(BfList{Net: 0, Count: 2, At: 1, Special: u, Project: "mainnet" + proj})
	}
	// malformed entries at every position around a page boundary
	for _, at := range []struct{ n, at int }{{1, 0}, {3, 0}, {3, 1}, {3, 2}, {101, 99}, {101, 100}} {
		for _, q := range []QS{"-1", "abc", "", "1.5", "0x10", "0b11", "0o17", "1_000", "1e6", "18446744073709551616", "99999999999999999999999", "1 000"} {
			u := genUtxo(0)
			u.Amt[0][1] = q
			yield(BfList{Net: 1, Count: at.n, At: at.at, Special: u, Fail: true, Project: proj})
		}
		for _, ix := range []QS{"-1", "65536", "70000", "\"0\"", "1.5", "4294967296", "true"} {
			u := genUtxo(0)
			u.Ix = ix
			yield(BfList{Net: 1, Count: at.n, At: at.at, Special: u, Fail: true, Project: proj})
		}
		for _, h := range []QS{"zz", "00", genUtxo(0).Hash[:62], genUtxo(0).Hash + "00", genUtxo(0).Hash + "0", genUtxo(0).Hash + "z", genUtxo(0).Hash[:63], genUtxo(0).Hash[:63] + "g", "zz" + genUtxo(0).Hash[2:], genUtxo(0).Hash[:30] + "0x" + genUtxo(0).Hash[32:], "", QS(strings.Repeat(" ", 64))} {
			u := genUtxo(0)
			u.Hash = h
			yield(BfList{Net: 1, Count: at.n, At: at.at, Special: u, Fail: true, Project: proj})
		}
	}
	// a fault on each page
	for _, k := range []int{0, 3, 100, 150, 250} {
		for page := 1; page <= k/100+1; page++ {
			for _, st := range []int{400, 402, 403, 404, 418, 201, 202, 204, 409, 422, 301, 302, 304} {
				for _, body := range []string{errBody(st), "", "<html>", "(page)"} {
					if !r.Thorough() && body == "" && st > 404 {
						continue
					}
					yield(BfList{Net: 1, Count: k, FaultPage: page, Fault: bfAns{Status: st, Body: body}, Project: proj})
				}
			}
			for _, body := range []string{"", "garbage", "{", "[", "<html></html>", `{"error":"x"}`, `"text"`, "[1]", `[{"tx_hash":1}]`, `[{"amount":"x"}]`, "(cut 1)", "(cut 20)", "(cut 100)", "(cut 150)", "(cut 1000000)"} {
				yield(BfList{Net: 0, Count: k, FaultPage: page, Fault: bfAns{Status: 200, Body: body}, Project: proj})
			}
			yield(BfList{Net: 0, Count: k, FaultPage: page, Fault: bfAns{Status: 200, Body: "(cut 1000000)", Short: true}, Project: proj})
		}
	}
	// every truncation of a one-entry answer
	full := len("[" + genUtxo(0).json() + "]")
	for i := 0; i < full; i += core.Pick(r, 3, 1) {
		yield(BfList{Net: 1, Count: 1, FaultPage: 1, Fault: bfAns{Status: 200, Body: fmt.Sprintf("(cut %d)", i)}, Project: proj})
		yield(BfList{Net: 1, Count: 1, FaultPage: 1, Fault: bfAns{Status: 200, Body: fmt.Sprintf("(cut %d)", i), Short: true}, Project: proj})
	}
}

// BfTip is a tip query.
type BfTip struct {
	Net  int
	Vals [3]QS // slot, epoch, height as JSON
	Cut  int   // > 0: only so many bytes
	Ans  bfAns // used when Status is not 0
	Fail bool
}

func bfTipJSON(v [3]QS) string {
	return fmt.Sprintf(`{"time":1641338934,"height":%s,"hash":"4ea1ba29","slot":%s,"epoch":%s,"epoch_slot":4242,"slot_leader":"pool1","size":3,"tx_count":1,"output":"128314491794","fees":"592661","block_vrf":"vrf","previous_block":"43eb","next_block":null,"confirmations":4698}`, v[2], v[0], v[1])
}

func checkBfTip(c BfTip, n *core.Counter) error {
	bfStart()
	nd := node.NewBlockfrostClient("proj-1", bfNet(c.Net))
	body := bfTipJSON(c.Vals)
	a := bfAns{Status: 200, Body: body}
	if c.Cut > 0 && c.Cut-1 < len(body) {
		a.Body = body[:c.Cut-1]
	}
	if c.Ans.Status != 0 {
		a = c.Ans
	}
	var t node.NetworkTip
	var err error
	reqs := bf.with(func(bfReq) bfAns { return a }, func() { t, err = nd.QueryTip() })
	n.Op(len(reqs))
	if len(reqs) != 1 {
		return errf("%d requests (%v)", len(reqs), err)
	}
	if e := wantReq(reqs[0], c.Net, "GET", "/api/v0/blocks/latest", "proj-1"); e != nil {
		return e
	}
	if c.Fail {
		if err == nil {
			return errf("no error for %d %q: %+v", a.Status, a.Body, t)
		}
		return nil
	}
	n.StateS(fmt.Sprint(t))
	if got := [3]QS{QS(fmt.Sprint(t.Slot)), QS(fmt.Sprint(t.Epoch)), QS(fmt.Sprint(t.Block))}; err != nil || got != c.Vals {
		return errf("the tip is %+v (%v), want %v", t, err, c.Vals)
	}
	return nil
}

func genBfTip(r *core.Run, yield func(BfTip)) {
	v := []QS{"0", "1", "255", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775807"}
	for k := range bfMagics {
		yield(BfTip{Net: 2 + k, Vals: [3]QS{"12", "34", "56"}})
	}
	for netID := 0; netID < 2; netID++ {
		for _, a := range v {
			for _, b := range v {
				yield(BfTip{Net: netID, Vals: [3]QS{a, b, "7"}})
				yield(BfTip{Net: netID, Vals: [3]QS{"8", a, b}})
			}
		}
		good := [3]QS{"412162133", "425", "15243593"}
		for _, st := range []int{400, 402, 403, 404, 418, 201, 204, 409, 302} {
			yield(BfTip{Net: netID, Vals: good, Ans: bfAns{Status: st, Body: errBody(st)}, Fail: true})
			yield(BfTip{Net: netID, Vals: good, Ans: bfAns{Status: st, Body: `{"slot":1,"epoch":2,"height":3}`}, Fail: true})
			yield(BfTip{Net: netID, Vals: good, Ans: bfAns{Status: st, Body: "<html>"}, Fail: true})
		}
		for i := 0; i < len(bfTipJSON(good)); i += core.Pick(r, 4, 1) {
			yield(BfTip{Net: netID, Vals: good, Cut: i + 1, Fail: true})
		}
		for _, b := range []string{"", "[", "[]", `"x"`, "<html>"} {
			yield(BfTip{Net: netID, Vals: good, Ans: bfAns{Status: 200, Body: b}, Fail: true})
		}
		for k := 0; k < 3; k++ {
			for _, bad := range []QS{"-1", `"5"`, "1.5", "18446744073709551615", "{}", "-9223372036854775808"} {
				w := good
				w[k] = bad
				yield(BfTip{Net: netID, Vals: w, Fail: true})
			}
		}
	}
}

// BfRetry are faults the client library retries (with pauses): run side by side, told apart by project id.
type BfRetry struct {
	Net int
	Op  int // 0 UTXOs, 1 tip, 2 parameters
	Ans bfAns
	// OK: the fault goes away after this many requests (0: never)
	OK int
}

func checkBfRetry(c BfRetry, n *core.Counter) error {
	bfStart()
	proj := fmt.Sprintf("retry-%d-%d-%d-%v-%d", c.Net, c.Op, c.Ans.Status, c.Ans.Close, c.OK)
	k := 0
	good := []string{"[" + genUtxo(0).json() + "]", `{"height":3,"slot":1,"epoch":2}`, bfParamJSON(defBfParams())}[c.Op]
	var bad error
	path := []string{"/api/v0/addresses/" + mustAddr(histAddrs[0]).String() + "/utxos", "/api/v0/blocks/latest", "/api/v0/epochs/latest/parameters"}[c.Op]
	bf.mu.Lock()
	bf.byID[proj] = func(r bfReq) bfAns {
		bf.mu.Lock()
		defer bf.mu.Unlock()
		k++
		if e := wantReq(r, c.Net, "GET", path, proj); e != nil {
			bad = e
		}
		if c.OK > 0 && k > c.OK {
			return bfAns{Status: 200, Body: good}
		}
		return c.Ans
	}
	bf.mu.Unlock()
	nd := node.NewBlockfrostClient(proj, bfNet(c.Net))
	var err error
	var res string
	switch c.Op {
	case 0:
		var l []struct{}
		us, e := nd.UTXOs(mustAddr(histAddrs[0]))
		for range us {
			l = append(l, struct{}{})
		}
		err, res = e, fmt.Sprint(len(l))
		if e == nil && len(us) == 1 {
			res = fmt.Sprintf("%x#%d %d", us[0].TxHash, us[0].Index, us[0].Amount)
		}
	case 1:
		t, e := nd.QueryTip()
		err, res = e, fmt.Sprint(t)
	case 2:
		p, e := nd.ProtocolParameters()
		err, res = e, fmt.Sprint(p)
	}
	bf.mu.Lock()
	delete(bf.byID, proj)
	b := bad
	reqs := k
	bf.mu.Unlock()
	n.Op(reqs)
	n.StateS(proj)
	if b != nil {
		return b
	}
	if c.OK == 0 {
		if err == nil {
			return errf("no error after %d failed requests: %s", reqs, res)
		}
		return nil
	}
	// an implementation may give up, but must not return anything wrong
	if err != nil {
		return nil
	}
	want := []string{fmt.Sprintf("%x#0 1000037", inHash(0)), fmt.Sprint(node.NetworkTip{Slot: 1, Epoch: 2, Block: 3}), fmt.Sprint(wantBfParams(defBfParams()))}[c.Op]
	if res != want {
		return errf("after a fault that went away the result is %s, want %s", res, want)
	}
	return nil
}

func genBfRetry(op ...int) func(r *core.Run, yield func(BfRetry)) {
	return func(r *core.Run, yield func(BfRetry)) {
		for netID := 0; netID < 2; netID++ {
			for _, o := range op {
				for _, a := range []bfAns{{Status: 500, Body: errBody(500)}, {Status: 503, Body: "busy"}, {Status: 429, Body: errBody(429)}, {Close: true}} {
					for ok := 0; ok < core.Pick(r, 2, 4); ok++ {
						yield(BfRetry{netID, o, a, ok})
					}
				}
			}
		}
	}
}

// parallelSub runs all cases at once (they mostly sleep).
type parallelSub struct {
	core.S[BfRetry]
}

func (p parallelSub) Explore(r *core.Run) {
	if r.Violated() {
		return
	}
	t0 := time.Now()
	var cases []BfRetry
	p.Gen(r, func(c BfRetry) { cases = append(cases, c) })
	errs := make([]error, len(cases))
	cnts := make([]*core.Counter, len(cases))
	var wg sync.WaitGroup
	for i := range cases {
		cnts[i] = core.NewCounter()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					errs[i] = errf("panic: %v", x)
				}
			}()
			errs[i] = p.Check(cases[i], cnts[i])
		}()
	}
	wg.Wait()
	tot := core.NewCounter()
	for i := range cases {
		tot.Merge(cnts[i])
		if errs[i] != nil {
			again := 0
			for k := 0; k < 2; k++ {
				if p.Check(cases[i], core.NewCounter()) != nil {
					again++
				}
			}
			r.Fail(p.N, cases[i], errs[i].Error(), fmt.Sprintf("failed again in %d of 2 isolated re-runs", again))
			break
		}
	}
	r.AddReport(p.N, int64(len(cases)), tot, true, time.Since(t0).Seconds())
}

// ---- C25 ----

// BfSubmit is a submission.
type BfSubmit struct {
	Net     int
	Tx      TxCase
	Bad     int
	Ans     bfAns
	ID      QS
	Project string
	Twice   bool
}

func checkBfSubmit(c BfSubmit, n *core.Counter) error {
	bfStart()
	t, err := buildTx(c.Tx)
	if err != nil {
		return err
	}
	want, err := t.Bytes()
	if err != nil {
		return err
	}
	if c.Bad >= 0 {
		t.Metadata = badMetas()[c.Bad].Val()
	}
	nd := node.NewBlockfrostClient(c.Project, bfNet(c.Net))
	rounds := 1
	if c.Twice {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		var id string
		var err error
		count := 0
		reqs := bf.with(func(bfReq) bfAns {
			if count++; count > 1 {
				// whatever else is asked for is answered as if it were a success
				return bfAns{Status: 200, Body: `"00"`}
			}
			return c.Ans
		}, func() { id, err = nd.SubmitTx(t) })
		n.Op(1)
		if c.Bad >= 0 {
			if err == nil {
				return errf("no error for a transaction that cannot be serialized")
			}
			if len(reqs) > 0 {
				return errf("a transaction that cannot be serialized was posted")
			}
			return nil
		}
		if len(reqs) != 1 {
			return errf("%d requests (%v)", len(reqs), err)
		}
		r := reqs[0]
		if e := wantReq(r, c.Net, "POST", "/api/v0/tx/submit", c.Project); e != nil {
			return e
		}
		if ct := r.Header.Values("Content-Type"); len(ct) != 1 || ct[0] != "application/cbor" {
			return errf("the content type is %q", ct)
		}
		if !bytes.Equal(r.Body, want) {
			return errf("posted\n  %x, the transaction is\n  %x", r.Body, want)
		}
		n.State(r.Body)
		if c.Ans.Status == 200 && !c.Ans.Short && !c.Ans.Close {
			n.Outcome("submitted")
			if err != nil {
				return errf("submission fails: %v", err)
			}
			if id != string(c.ID) {
				return errf("the transaction id is %q, the server said %q", id, string(c.ID))
			}
			continue
		}
		n.Outcome("failure reported")
		if err == nil {
			return errf("no error for status %d %q (closed %v, cut short %v): %q", c.Ans.Status, c.Ans.Body, c.Ans.Close, c.Ans.Short, id)
		}
	}
	after, err := t.Bytes()
	if err != nil || !bytes.Equal(after, want) {
		return errf("submission altered the transaction")
	}
	return nil
}

func genBfSubmit(r *core.Run, yield func(BfSubmit)) {
	id := QS(hex.EncodeToString(inHash(8)))
	ok := bfAns{Status: 200, Body: `"` + string(id) + `"`}
	many := func(k int) TxCase {
		c := base(2)
		c.Ins, c.Outs = nil, nil
		for i := 0; i < k; i++ {
			c.Ins = append(c.Ins, someIn(i))
			c.Outs = append(c.Outs, someOut(i))
		}
		c.Keys = k % 5
		return c
	}
	for k := range bfMagics {
		yield(BfSubmit{2 + k, many(k), -1, ok, id, []string{"mainnetAbC", "testnet0", "preview9", "preprodX", "p r", "x"}[k%6], true})
		yield(BfSubmit{2 + k, many(1), -1, bfAns{Status: 202, Body: ok.Body}, "", "p", false})
	}
	for netID := 0; netID < 2; netID++ {
		for k := 0; k < core.Pick(r, 60, 200); k++ {
			yield(BfSubmit{netID, many(k), -1, ok, id, []string{"mainnet", "testnet", "preprod", "project", "MAINNET", ""}[k%6] + fmt.Sprint("Zz", k), k%5 == 0})
		}
		for m := range allMetas {
			c := base(2)
			c.Meta = m
			yield(BfSubmit{netID, c, -1, ok, id, "p", true})
		}
		for a := range changeAddrs {
			c := base(2)
			c.Outs[0].Addr = changeAddrs[a]
			yield(BfSubmit{netID, c, -1, ok, id, "p", false})
		}
		for _, ws := range []string{"\n", " ", "\r\n"} {
			yield(BfSubmit{netID, many(1), -1, bfAns{Status: 200, Body: ok.Body + ws}, id, "p", false})
		}
		for st := 201; st < 600; st++ {
			bodies := []string{ok.Body}
			if st%100 < 32 || r.Thorough() {
				bodies = append(bodies, errBody(st), "")
			}
			for _, b := range bodies {
				yield(BfSubmit{netID, many(1), -1, bfAns{Status: st, Body: b}, "", "p", false})
			}
		}
		// redirections: to the same server, to the other network's, to another host, to plain HTTP
		for _, st := range []int{300, 301, 302, 303, 305, 307, 308, 399} {
			for _, to := range []string{"/api/v0/tx/submit", "/api/v0/elsewhere", "https://cardano-mainnet.blockfrost.io/api/v0/tx/submit", "https://cardano-testnet.blockfrost.io/api/v0/tx/submit",
				"https://elsewhere.org/", "http://cardano-mainnet.blockfrost.io/api/v0/tx/submit", "", "%zz"} {
				for _, b := range []string{ok.Body, ""} {
					yield(BfSubmit{netID, many(1), -1, bfAns{Status: st, Body: b, Header: map[string]string{"Location": to}}, "", "p", false})
				}
			}
		}
		for _, a := range []bfAns{{Close: true}, {Status: 200, Body: ok.Body, Short: true}, {Status: 200, Body: "", Short: true}, {Status: 400, Body: "x", Short: true}, {Status: 200, Body: ok.Body[:20], Short: true}} {
			yield(BfSubmit{netID, many(2), -1, a, "", "p", false})
		}
		for b := range badMetas() {
			yield(BfSubmit{netID, base(2), b, ok, id, "p", false})
		}
		for _, sz := range []int{1000, 2000} {
			c := base(2)
			for i := 0; i < sz; i++ {
				c.Ins = append(c.Ins, someIn(i+1))
			}
			yield(BfSubmit{netID, c, -1, ok, id, "p", false})
		}
	}
}

// ---- C26: parameters ----

// BfParams is a parameters query.
type BfParams struct {
	Net  int
	Vals []QS // min_fee_a, min_fee_b, max_tx_size, major, minor (JSON), min_utxo (JSON)
	Cut  int
	Ans  bfAns
	Fail bool
}

func defBfParams() []QS { return []QS{"44", "155381", "16384", "5", "1", `"1000000"`} }

func bfParamJSON(v []QS) string {
	return fmt.Sprintf(`{"epoch":225,"min_fee_a":%s,"min_fee_b":%s,"max_block_size":65536,"max_tx_size":%s,"max_block_header_size":1100,"key_deposit":"2000000","pool_deposit":"500000000","e_max":18,"n_opt":150,"a0":0.3,"rho":0.003,"tau":0.2,"decentralisation_param":0.5,"extra_entropy":null,"protocol_major_ver":%s,"protocol_minor_ver":%s,"min_utxo":%s,"min_pool_cost":"340000000","nonce":"1a3be38bcbb7911969283716ad7aa550250226b76a61fc51cc9a9a35d9276d81"}`, v[0], v[1], v[2], v[3], v[4], v[5])
}

func wantBfParams(v []QS) protocol.Protocol {
	u := func(q QS) uint {
		x, err := strconv.ParseUint(strings.Trim(string(q), `"`), 10, 64)
		must(err)
		return uint(x)
	}
	return protocol.Protocol{TxFeePerByte: u(v[0]), TxFeeFixed: u(v[1]), MaxTxSize: u(v[2]), ProtocolVersion: protocol.ProtocolVersion{Major: uint8(u(v[3])), Minor: uint8(u(v[4]))}, MinUTXOValue: u(v[5])}
}

func checkBfParams(c BfParams, n *core.Counter) error {
	bfStart()
	a := bfAns{Status: 200, Body: bfParamJSON(c.Vals)}
	if c.Cut > 0 && c.Cut-1 < len(a.Body) {
		a.Body = a.Body[:c.Cut-1]
	}
	if c.Ans.Status != 0 {
		a = c.Ans
	}
	nd := node.NewBlockfrostClient("proj-2", bfNet(c.Net))
	var p protocol.Protocol
	var err error
	reqs := bf.with(func(bfReq) bfAns { return a }, func() { p, err = nd.ProtocolParameters() })
	n.Op(len(reqs))
	for _, q := range reqs {
		if e := wantReq(q, c.Net, "GET", "/api/v0/epochs/latest/parameters", "proj-2"); e != nil {
			return e
		}
	}
	if c.Fail {
		if err == nil {
			return errf("no error for %d %q: %+v", a.Status, a.Body, p)
		}
		return nil
	}
	n.StateS(fmt.Sprint(p))
	if want := wantBfParams(c.Vals); err != nil || p != want {
		return errf("parameters are %+v (%v), want %+v, for %s", p, err, want, a.Body)
	}
	return nil
}

func genBfParams(r *core.Run, yield func(BfParams)) {
	vals := []QS{"0", "1", "255", "256", "65535", "65536", "4294967295", "4294967296", "9007199254740993", "9223372036854775807"}
	for k := range bfMagics {
		yield(BfParams{Net: 2 + k, Vals: defBfParams()})
	}
	for netID := 0; netID < 2; netID++ {
		for f := 0; f < 3; f++ {
			for _, v := range vals {
				p := defBfParams()
				p[f] = v
				yield(BfParams{Net: netID, Vals: p})
				q := defBfParams()
				q[f], q[(f+1)%3] = v, "77"
				yield(BfParams{Net: netID, Vals: q})
			}
		}
		for _, v := range append(vals, "9223372036854775808", "18446744073709551615") {
			p := defBfParams()
			p[5] = `"` + v + `"`
			yield(BfParams{Net: netID, Vals: p})
		}
		for v := 0; v < 256; v += core.Pick(r, 5, 1) {
			p := defBfParams()
			p[3] = QS(fmt.Sprint(v))
			yield(BfParams{Net: netID, Vals: p})
			p = defBfParams()
			p[4] = QS(fmt.Sprint(v))
			yield(BfParams{Net: netID, Vals: p})
		}
		for f := 0; f < 5; f++ {
			for _, bad := range []QS{"-1", `"1"`, "1.5", "9223372036854775808", "{}", "[]", "true"} {
				p := defBfParams()
				p[f] = bad
				yield(BfParams{Net: netID, Vals: p, Fail: true})
			}
		}
		for _, bad := range []QS{"256", "1000", "-255", "65537"} {
			for f := 3; f < 5; f++ {
				p := defBfParams()
				p[f] = bad
				yield(BfParams{Net: netID, Vals: p, Fail: true})
			}
		}
		for _, bad := range []QS{"5", `"-1"`, `"1.5"`, `"x"`, `""`, `"18446744073709551616"`, "{}", `"1e6"`, `"0x10"`, `"0b11"`, `"0o17"`, `"1_000"`, `"1 000"`} {
			p := defBfParams()
			p[5] = bad
			yield(BfParams{Net: netID, Vals: p, Fail: true})
		}
		full := len(bfParamJSON(defBfParams()))
		for i := 0; i < full; i += core.Pick(r, 9, 1) {
			yield(BfParams{Net: netID, Vals: defBfParams(), Cut: i + 1, Fail: true})
		}
		for _, st := range []int{400, 402, 403, 404, 418, 201, 204, 409, 302} {
			yield(BfParams{Net: netID, Vals: defBfParams(), Ans: bfAns{Status: st, Body: errBody(st)}, Fail: true})
			yield(BfParams{Net: netID, Vals: defBfParams(), Ans: bfAns{Status: st, Body: bfParamJSON(defBfParams())}, Fail: true})
		}
		for _, b := range []string{"", "[]", `"x"`, "<html>", "{"} {
			yield(BfParams{Net: netID, Vals: defBfParams(), Ans: bfAns{Status: 200, Body: b}, Fail: true})
		}
	}
}

func init() {
	core.Register(&core.Prop{ID: "C24", Level: "fault_enumeration", Subs: []core.Sub{
		core.S[BfList]{N: "utxos", Gen: genBfList, Check: checkBfList, Serial: true, Batch: 8},
		core.S[BfTip]{N: "tips", Gen: genBfTip, Check: checkBfTip, Serial: true, Batch: 8},
		nodeHistSub(0, true, false),
		overlapSub(true, false, nU3, nUOther, nT1),
		parallelSub{core.S[BfRetry]{N: "retried-faults", Gen: genBfRetry(0, 1, 2), Check: checkBfRetry}}},
		Exhaustive:  "entry counts across page boundaries, boundary and malformed values of every field at positions around page boundaries, every status in the list and every truncation of an answer on every page, faults the client library retries; requests recorded by a loopback server behind a proxy that accepts any host",
		Assumptions: []string{"the server follows the documented pagination (count up to 100, page from 1)", "entries without a lovelace amount are not explored"}})
	core.Register(&core.Prop{ID: "C25", Level: "fault_enumeration", Subs: []core.Sub{
		core.S[BfSubmit]{N: "submissions", Gen: genBfSubmit, Check: checkBfSubmit, Serial: true, Batch: 8},
		nodeHistSub(2, true, false),
		overlapSub(true, false, nSBig, nSSmall, nU3)},
		Exhaustive:  "transactions of every feature and growing size; every status from 201 to 599 with and without a body, closed and cut short answers, unencodable metadata, on both networks",
		Assumptions: []string{"on status 200 the server answers with the id as a JSON string, as documented"}})
}
