package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// plainCfg: one schedule for every choice of the environment.
var plainCfg = mcrt.Config{SwitchCost: 1}

// rowCfg is for executions of many requests.
var rowCfg = mcrt.Config{SwitchCost: 1, MaxSteps: 1 << 20}

// ---------------------------------------------------------------- a client and the network around it

type ip4 = [4]byte

var (
	ipDevA  = ip4{10, 0, 0, 20}
	ipDevB  = ip4{10, 0, 0, 21}
	ipOther = ip4{10, 0, 0, 99}
)

const bacPort = 0xBAC0

// cw is a client under test with everything it sent.
type cw struct {
	cli   bacnet.Client
	sock  *mcrt.UDPConn
	run   *mcrt.Handle
	calls []*call
	hs    []*mcrt.Handle
	// reply is called for every request datagram that belongs to a call
	reply func(k *call, attempt int, m *wire)
	// other is called for everything else that is sent
	other func(m *wire)
}

// settle lets everything that can run do so, in the default order and without early timers.
func settle() {
	mcrt.Early(false)
	mcrt.DirectMode(true)
	mcrt.Sleep(time.Nanosecond)
	mcrt.DirectMode(false)
	mcrt.Early(true)
}

func newCW() *cw {
	w := &cw{}
	mcrt.DirectMode(true)
	cli, err := bacnet.NewClient(&bacnet.ClientBuilder{Interface: "10.0.0.5/24", Port: bacPort})
	if err != nil {
		mcrt.Fail("NewClient: %v", err)
	}
	if len(mcrt.Sockets()) != 1 {
		mcrt.Fail("the client has %d sockets", len(mcrt.Sockets()))
	}
	w.start(cli)
	return w
}

func (w *cw) start(cli bacnet.Client) {
	w.cli = cli
	w.sock = mcrt.Sockets()[0]
	mcrt.OnSend(w.onSend)
	w.run = mcrt.GoHarness("receive", cli.ClientRun)
	mcrt.DirectMode(false)
	settle()
}

// wire is a datagram of the client, parsed by the rules of the standard.
type wire struct {
	p        mcrt.Packet
	fn       byte
	dst, src *ref.Addr
	hop      byte
	reply    bool
	network  bool
	prio     byte
	body     []byte // behind the network header
	// confirmed requests
	confirmed bool
	id, svc   byte
	service   []byte
}

// parse reads a datagram; anything that is not exactly as the standard prescribes is a violation.
func parse(p mcrt.Packet) (*wire, string) {
	m := &wire{p: p}
	b := p.Data
	if len(b) < 6 || b[0] != 0x81 || int(b[2])<<8|int(b[3]) != len(b) {
		return nil, fmt.Sprintf("sends % x: not a BACnet/IP message of its length", clip(b))
	}
	m.fn = b[1]
	if m.fn != 0x0A && m.fn != 0x0B {
		return nil, fmt.Sprintf("sends % x: unexpected BACnet/IP function", clip(b))
	}
	c := b[5]
	if b[4] != 1 || c&0x50 != 0 {
		return nil, fmt.Sprintf("sends % x: unexpected network version or control", clip(b))
	}
	m.network, m.reply, m.prio = c&0x80 != 0, c&4 != 0, c&3
	b = b[6:]
	addr := func() *ref.Addr {
		if len(b) < 3 || len(b) < 3+int(b[2]) {
			return nil
		}
		a := &ref.Addr{Net: uint16(b[0])<<8 | uint16(b[1]), Adr: append([]byte{}, b[3:3+int(b[2])]...)}
		b = b[3+int(b[2]):]
		return a
	}
	if c&0x20 != 0 {
		if m.dst = addr(); m.dst == nil {
			return nil, fmt.Sprintf("sends % x: destination cut", clip(p.Data))
		}
	}
	if c&8 != 0 {
		if m.src = addr(); m.src == nil {
			return nil, fmt.Sprintf("sends % x: source cut", clip(p.Data))
		}
	}
	if c&0x20 != 0 {
		if len(b) == 0 {
			return nil, fmt.Sprintf("sends % x: no hop count", clip(p.Data))
		}
		m.hop, b = b[0], b[1:]
	}
	m.body = b
	if !m.network && len(b) >= 4 && b[0]&0xF0 == 0 {
		m.confirmed, m.id, m.svc, m.service = true, b[2], b[3], b[4:]
	}
	return m, ""
}

func (w *cw) onSend(p mcrt.Packet) {
	m, s := parse(p)
	if s != "" {
		mcrt.Fail("%s", s)
	}
	if m.confirmed {
		for _, k := range w.calls {
			if k.svc == m.svc && bytes.Equal(k.body, m.service) {
				if k.done {
					mcrt.Fail("%s: sent after its end: %v", k.name, p)
				}
				k.sends = append(k.sends, m)
				k.check(m)
				if w.reply != nil {
					w.reply(k, len(k.sends)-1, m)
				}
				return
			}
		}
		mcrt.Fail("sends a request that nobody asked for: %v", p)
	}
	if w.other != nil {
		w.other(m)
	}
}

// inject puts a datagram on the wire to the client.
func (w *cw) inject(from ip4, b []byte) { mcrt.Inject(w.sock, from, bacPort, b) }

// injectAt does so after a time.
func (w *cw) injectAt(d time.Duration, from ip4, b []byte) {
	if d <= 0 {
		w.inject(from, b)
		return
	}
	mcrt.After(d, "datagram", func() { w.inject(from, b) })
}

// ---------------------------------------------------------------- confirmed requests

const (
	kRead = iota
	kReadMulti
	kWrite
	kWriteMulti
)

var kindNames = []string{"read", "multiple read", "write", "multiple write"}
var kindSvc = []byte{12, 14, 15, 16}

type call struct {
	name   string
	kind   int
	dev    btypes.Device
	ip     ip4
	objs   []ref.Obj
	svc    byte
	body   []byte
	sends  []*wire
	t0, t1 time.Duration
	begun  bool
	done   bool
	err    error
	got    []btypes.Object
	// what was injected for it
	oks, errs, bads int
	answered        bool
	dest            bool // compare the datagram with the address of dev
}

// simpleDevice is a device on the local network.
func simpleDevice(ip ip4, inst uint32) btypes.Device {
	mac := []byte{ip[0], ip[1], ip[2], ip[3], bacPort >> 8, bacPort & 0xFF}
	return btypes.Device{ID: btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}, DeviceID: int(inst), MaxApdu: 1476, Segmentation: 3,
		Addr: btypes.Address{Mac: mac, MacLen: 6}}
}

// newCall prepares a request whose content no other call has.
func (w *cw) newCall(kind int, ip ip4, n int) *call {
	k := &call{kind: kind, ip: ip, dev: simpleDevice(ip, 100+uint32(ip[3])), svc: kindSvc[kind]}
	k.name = fmt.Sprintf("%s %d", kindNames[kind], n)
	o := ref.Obj{ID: btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(n + 1)}}
	p := ref.Prop{Type: 85, Index: ref.ArrayAll, Value: float32(n) + 0.5}
	switch kind {
	case kRead:
		p.Type, p.Value = 77, fmt.Sprintf("name %d", n)
		o.Props = []ref.Prop{p}
		k.body = ref.ReadPropertyReq(o.ID, p)
	case kReadMulti:
		q := ref.Prop{Type: 77, Index: ref.ArrayAll, Value: fmt.Sprintf("name %d", n)}
		o.Props = []ref.Prop{p, q}
		k.body = ref.ReadMultipleReq([]ref.Obj{o})
	case kWrite:
		p.Prio = 8
		o.Props = []ref.Prop{p}
		k.body = ref.WritePropertyReq(o.ID, p)
	case kWriteMulti:
		p.Prio = 9
		o.Props = []ref.Prop{p}
		k.body = ref.WriteMultipleReq([]ref.Obj{o})
	}
	k.objs = []ref.Obj{o}
	w.calls = append(w.calls, k)
	return k
}

// check: every datagram of the request is what it has to be.
func (k *call) check(m *wire) {
	npdu, port := ref.NPDU(nil, nil, 0, true, false, 0), bacPort
	if k.dest {
		port = int(k.dev.Addr.Mac[4])<<8 | int(k.dev.Addr.Mac[5])
		if k.dev.Addr.Net != 0 {
			npdu = ref.NPDU(&ref.Addr{Net: k.dev.Addr.Net, Adr: k.dev.Addr.Adr}, nil, 255, true, false, 0)
		}
	}
	std := ref.BVLC(0x0A, ref.Cat(npdu, ref.Confirmed(m.id, k.svc), k.body))
	if !bytes.Equal(m.p.Data, std) || m.p.ToIP != k.ip || m.p.ToPort != port {
		mcrt.Fail("%s is sent as %v instead of % x", k.name, m.p, clip(std))
	}
	if m.id != k.sends[0].id {
		mcrt.Fail("%s is repeated under another invoke id", k.name)
	}
	if m.id == 0 || m.id == 255 {
		mcrt.Fail("%s has the invoke id %d", k.name, m.id)
	}
}

// do makes the call.
func (k *call) do(cli bacnet.Client) {
	k.begun, k.t0 = true, mcrt.NowNS()
	obj := toObj(k.objs[0])
	switch k.kind {
	case kRead:
		for i := range obj.Properties {
			obj.Properties[i].Data, obj.Properties[i].Priority = nil, 0
		}
		r, err := cli.ReadProperty(k.dev, btypes.PropertyData{Object: obj})
		k.got, k.err = []btypes.Object{r.Object}, err
	case kReadMulti:
		for i := range obj.Properties {
			obj.Properties[i].Data, obj.Properties[i].Priority = nil, 0
		}
		r, err := cli.ReadMultiProperty(k.dev, btypes.MultiplePropertyData{Objects: []btypes.Object{obj}})
		k.got, k.err = r.Objects, err
	case kWrite:
		k.err = cli.WriteProperty(k.dev, btypes.PropertyData{Object: obj})
	case kWriteMulti:
		k.err = cli.WriteMultiProperty(k.dev, btypes.MultiplePropertyData{Objects: []btypes.Object{obj}})
	}
	k.done, k.t1 = true, mcrt.NowNS()
}

// spawn makes the call in a thread of its own.
func (w *cw) spawn(k *call) {
	w.hs = append(w.hs, mcrt.GoHarness(k.name, func() { k.do(w.cli) }))
}

func (w *cw) join() {
	for _, h := range w.hs {
		h.Join()
	}
}

// values: the caller of a read has exactly the values of the device.
func (k *call) values() {
	if k.err != nil || k.kind == kWrite || k.kind == kWriteMulti {
		return
	}
	var want []ref.Obj
	for i, o := range k.objs {
		want = append(want, ref.Obj{ID: o.ID})
		for _, p := range o.Props {
			p.Prio = 0
			want[i].Props = append(want[i].Props, p)
		}
	}
	if s := sameObjs(want, k.got); s != "" {
		mcrt.Fail("%s returns something else than the device sent: %s", k.name, s)
	}
}

// apduOK is the positive answer of the device, apduErr a negative one.
func (k *call) apduOK(id byte) []byte {
	switch k.kind {
	case kRead:
		return ref.Cat([]byte{0x30, id, k.svc}, ref.ReadPropertyAck(k.objs[0].ID, k.objs[0].Props[0]))
	case kReadMulti:
		return ref.Cat([]byte{0x30, id, k.svc}, ref.ReadMultipleAck(k.objs))
	}
	return []byte{0x20, id, k.svc}
}

func plain(apdu []byte) []byte {
	return ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, false, 0), apdu))
}

// names: the error names class and code.
func names(err error, class, code uint32) bool {
	if err == nil {
		return false
	}
	s := err.Error()
	has := func(std map[uint32]string, v uint32) bool { return hasWord(s, std[v]) || hasNumber(s, v) }
	return has(stdClasses, class) && has(stdCodes, code)
}

// hasWord: w is a word of s.
func hasWord(s, w string) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') }) {
		if f == w {
			return true
		}
	}
	return false
}

func hasNumber(s string, v uint32) bool {
	for _, f := range strings.FieldsFunc(s, func(r rune) bool { return r < '0' || r > '9' }) {
		if f == fmt.Sprint(v) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- P07: the outcome tells the truth

const (
	cOK = iota
	cErr
	cBad   // for this transaction, but no usable answer: may be ignored or end the attempt
	cNoise // nothing to do with this transaction
)

type answer struct {
	what  string
	class int
	from  ip4
	data  func(k *call, id byte) []byte
}

const errClass, errCode = 2, 31

func answers() []answer {
	var out []answer
	add := func(what string, class int, from ip4, f func(k *call, id byte) []byte) {
		out = append(out, answer{what, class, from, f})
	}
	npdu := func() []byte { return ref.NPDU(nil, nil, 0, false, false, 0) }
	add("acknowledgement", cOK, ipDevA, func(k *call, id byte) []byte { return plain(k.apduOK(id)) })
	add("error", cErr, ipDevA, func(k *call, id byte) []byte { return plain(ref.ErrorPDU(id, k.svc, errClass, errCode)) })
	add("error in brackets", cErr, ipDevA, func(k *call, id byte) []byte { return plain(ref.ErrorPDU0(id, k.svc, errClass, errCode)) })
	add("acknowledgement of another id", cNoise, ipDevA, func(k *call, id byte) []byte { return plain(k.apduOK(id%254 + 1)) })
	add("error for another id", cNoise, ipDevA, func(k *call, id byte) []byte { return plain(ref.ErrorPDU(id%254+1, k.svc, 1, 2)) })
	add("request of another party", cNoise, ipOther, func(k *call, id byte) []byte { return plain(ref.Cat(ref.Confirmed(id, k.svc), k.body)) })
	add("request of another party with the content of an answer", cNoise, ipOther, func(k *call, id byte) []byte {
		return plain(ref.Cat(ref.Confirmed(id, k.svc), k.apduOK(id)[3:]))
	})
	add("network message with the bytes of an answer", cNoise, ipDevA, func(k *call, id byte) []byte {
		return ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x02}, k.apduOK(id)))
	})
	add("network number with the bytes of an answer", cNoise, ipDevA, func(k *call, id byte) []byte {
		return ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x13, 0, 7}, k.apduOK(id)))
	})
	add("proprietary network message with the bytes of an answer", cNoise, ipDevA, func(k *call, id byte) []byte {
		return ref.BVLC(0x0A, ref.Cat(ref.NPDU(nil, nil, 0, false, true, 0), []byte{0x80, 0, 7}, k.apduOK(id)))
	})
	add("reject", cBad, ipDevA, func(k *call, id byte) []byte { return plain([]byte{0x60, id, 9}) })
	add("abort", cBad, ipDevA, func(k *call, id byte) []byte { return plain([]byte{0x71, id, 4}) })
	add("segment acknowledgement", cBad, ipDevA, func(k *call, id byte) []byte { return plain([]byte{0x41, id, 0, 1}) })
	add("segment", cBad, ipDevA, func(k *call, id byte) []byte {
		return plain(ref.Cat([]byte{0x3C, id, 0, 1}, k.apduOK(id)[2:]))
	})
	add("last segment", cBad, ipDevA, func(k *call, id byte) []byte {
		return plain(ref.Cat([]byte{0x38, id, 1, 1}, k.apduOK(id)[2:]))
	})
	add("acknowledgement of the other kind", cBad, ipDevA, func(k *call, id byte) []byte {
		a := k.apduOK(id)
		a[0] ^= 0x10
		return plain(a)
	})
	add("acknowledgement of another service", cBad, ipDevA, func(k *call, id byte) []byte {
		a := k.apduOK(id)
		a[2] = 28 - a[2] // 12 and 16, 13 and 15
		if a[2] == k.svc {
			a[2] = 12
		}
		return plain(a)
	})
	add("acknowledgement cut in half", cBad, ipDevA, func(k *call, id byte) []byte {
		a := k.apduOK(id)
		if len(a) == 3 {
			return plain(a[:2])
		}
		return plain(a[:len(a)/2])
	})
	add("acknowledgement without its last byte", cBad, ipDevA, func(k *call, id byte) []byte {
		a := k.apduOK(id)
		return plain(a[:len(a)-1])
	})
	add("acknowledgement without content", cBad, ipDevA, func(k *call, id byte) []byte {
		a := k.apduOK(id)
		if k.kind == kRead { // without the value
			return plain(ref.Cat([]byte{0x30, id, k.svc}, k.body))
		}
		if len(a) == 3 {
			return plain(a[:1])
		}
		return plain(a[:4]) // (nothing at all would be an empty list of objects)
	})
	add("error cut short", cBad, ipDevA, func(k *call, id byte) []byte { return plain([]byte{0x50, id, k.svc, 0x91}) })
	add("search", cNoise, ipOther, func(k *call, id byte) []byte { return plain([]byte{0x10, 8}) })
	add("announcement", cNoise, ipOther, func(k *call, id byte) []byte { return plain(ref.IAm(uint32(id), 480, 3, 9)) })
	add("other unconfirmed service", cNoise, ipOther, func(k *call, id byte) []byte { return plain([]byte{0x10, id, k.svc}) })
	add("not BACnet", cNoise, ipOther, func(k *call, id byte) []byte {
		b := plain(k.apduOK(id))
		b[0] = 0x82
		return b
	})
	add("result message with the bytes of an answer", cNoise, ipDevA, func(k *call, id byte) []byte {
		b := plain(k.apduOK(id))
		b[1] = 0
		return b
	})
	add("short datagram", cNoise, ipOther, func(k *call, id byte) []byte { return []byte{0x81, 0x0A, 0, 4} })
	add("short forwarded datagram", cNoise, ipOther, func(k *call, id byte) []byte { return []byte{0x81, 0x04, 0, 8, 1, id, k.svc, 0} })
	add("forwarded acknowledgement", cOK, ipOther, func(k *call, id byte) []byte {
		return ref.Forwarded(ipDevA, bacPort, ref.Cat(npdu(), k.apduOK(id)))
	})
	add("forwarded error", cErr, ipOther, func(k *call, id byte) []byte {
		return ref.Forwarded(ipDevA, bacPort, ref.Cat(npdu(), ref.ErrorPDU(id, k.svc, errClass, errCode)))
	})
	add("acknowledgement through a router", cOK, ipDevA, func(k *call, id byte) []byte {
		return ref.BVLC(0x0A, ref.Cat(ref.NPDU(&ref.Addr{Net: 9, Adr: []byte{1}}, &ref.Addr{Net: 7, Adr: []byte{3}}, 255, false, false, 0), k.apduOK(id)))
	})
	return out
}

// judge compares the outcome of a call with the answers that were sent to every attempt, in this order.
func (k *call) judge(seq []answer, ordered bool) {
	n := [4]int{}
	first := -1
	for _, a := range seq {
		n[a.class]++
		if first < 0 && a.class != cNoise {
			first = a.class
		}
	}
	var txt []string
	for _, a := range seq {
		txt = append(txt, a.what)
	}
	what := fmt.Sprintf("%s answered by [%s]", k.name, strings.Join(txt, ", "))
	k.values()
	if k.err == nil && n[cOK] == 0 {
		mcrt.Fail("%s succeeds", what)
	}
	if k.err != nil && n[cOK] > 0 && (n[cErr]+n[cBad] == 0 || ordered && first == cOK) {
		mcrt.Fail("%s fails: %v", what, k.err)
	}
	if k.err != nil && n[cErr] > 0 && n[cBad] == 0 && n[cOK] == 0 && !names(k.err, errClass, errCode) {
		mcrt.Fail("%s fails with %q, which does not name class %d and code %d", what, k.err, errClass, errCode)
	}
	if k.err != nil && n[cErr] == 0 && names(k.err, errClass, errCode) {
		mcrt.Fail("%s fails with %q", what, k.err)
	}
	if l := len(k.sends); l < 1 || l > 2 {
		mcrt.Fail("%s was sent %d times", what, l)
	}
	if n[cOK]+n[cErr]+n[cBad] == 0 {
		if d := k.t1 - k.t0; d != time.Duration(len(k.sends))*5*time.Second {
			mcrt.Fail("%s took %v for %d attempts", what, d, len(k.sends))
		}
	}
}

// fresh: after all that a request works as ever.
func (w *cw) fresh() {
	mcrt.Early(false)
	mcrt.Sleep(10 * time.Millisecond) // (what is still on the wire may have its invoke id)
	w.reply = func(k *call, attempt int, m *wire) { w.inject(k.ip, plain(k.apduOK(m.id))) }
	k := w.newCall(kRead, ipDevB, 900)
	k.do(w.cli)
	if k.err != nil || len(k.sends) != 1 {
		mcrt.Fail("a request made afterwards: %v (sent %d times)", k.err, len(k.sends))
	}
	k.values()
}

func init() {
	as := answers()
	// every sequence of answers, one after the other
	xp.Add(&xp.Unit{Prop: "P07", Name: "answers", Weight: 3, Cfg: plainCfg, Body: func() {
		w := newCW()
		k := w.newCall(mcrt.Choose(4, "kind"), ipDevA, 5)
		var seq []answer
		for i := 0; i < 3; i++ {
			a := mcrt.Choose(len(as)+1, "answer")
			if a == 0 {
				break
			}
			seq = append(seq, as[a-1])
		}
		w.reply = func(k *call, attempt int, m *wire) {
			for i, a := range seq {
				w.injectAt(time.Duration(i+1)*time.Millisecond, a.from, a.data(k, m.id))
			}
		}
		k.do(w.cli)
		k.judge(seq, true)
		w.fresh()
		mcrt.Log("%v %d", k.err == nil, len(k.sends))
	}})
	// the same answer under every identifier there is
	xp.Add(&xp.Unit{Prop: "P07", Name: "in-a-row", Weight: 2, Cfg: rowCfg, Body: func() {
		w := newCW()
		kind := mcrt.Choose(5, "kind") // (the last: by turns)
		var seq []answer
		for _, i := range [][]int{{0}, {1}, {2}, {4, 0}, {3, 0}, {27, 0}, {28}, {29}, {30}, {17, 0}, {5, 0}}[mcrt.Choose(11, "answers")] {
			seq = append(seq, as[i])
		}
		w.reply = func(k *call, attempt int, m *wire) {
			for i, a := range seq {
				w.injectAt(time.Duration(i+1)*time.Millisecond, a.from, a.data(k, m.id))
			}
		}
		ids := map[byte]bool{}
		for i := 0; i < 600; i++ {
			kd := kind
			if kind == 4 {
				kd = i % 4
			}
			k := w.newCall(kd, ipDevA, i)
			k.do(w.cli)
			k.judge(seq, true)
			for _, m := range k.sends {
				ids[m.id] = true
			}
			w.calls = nil
		}
		w.full()
		mcrt.Log("%d identifiers", len(ids))
	}})
	// errors one after the other, and each is told as it is
	xp.Add(&xp.Unit{Prop: "P07", Name: "errors-in-a-row", Weight: 2, Cfg: rowCfg, Body: func() {
		w := newCW()
		kind := mcrt.Choose(5, "kind") // (the last: by turns)
		backwards := mcrt.Choose(2, "backwards") == 1
		br := mcrt.Choose(3, "brackets") // (the last: by turns)
		var es [][2]uint32
		for _, class := range []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 64, 200, 255, 256, 65535, 0x10002} {
			for _, code := range []uint32{0, 1, 2, 3, 7, 9, 15, 16, 31, 32, 42, 64, 127, 128, 143, 200, 255, 256, 257, 65535} {
				es = append(es, [2]uint32{class, code})
			}
		}
		for i := range es {
			e, kd := es[i], kind
			if backwards {
				e = es[len(es)-1-i]
			}
			if kind == 4 {
				kd = i % 4
			}
			w.reply = func(k *call, attempt int, m *wire) {
				pdu := ref.ErrorPDU(m.id, k.svc, e[0], e[1])
				if br == 1 || br == 2 && i%2 == 1 {
					pdu = ref.ErrorPDU0(m.id, k.svc, e[0], e[1])
				}
				w.inject(k.ip, plain(pdu))
			}
			k := w.newCall(kd, ipDevA, i)
			k.do(w.cli)
			if !names(k.err, e[0], e[1]) {
				mcrt.Fail("%s answered by an error of class %d and code %d after %d others: %v", k.name, e[0], e[1], i, k.err)
			}
			w.calls = nil
		}
		w.full()
		mcrt.Log("%d errors", len(es))
	}})
	// answers that arrive at once, in every order of their processing
	xp.Add(&xp.Unit{Prop: "P07", Name: "answers-at-once", Weight: 2, Cfg: mcrt.Config{SwitchCost: 1}, Quick: 2, Deep: 3, Body: func() {
		w := newCW()
		k := w.newCall(mcrt.ChooseFree(4, "kind"), ipDevA, 5)
		var seq []answer
		for i := 0; i < 2; i++ {
			seq = append(seq, as[mcrt.ChooseFree(len(as), "answer")])
		}
		w.reply = func(k *call, attempt int, m *wire) {
			for _, a := range seq {
				w.inject(a.from, a.data(k, m.id))
			}
		}
		k.do(w.cli)
		k.judge(seq, false)
		w.fresh()
		mcrt.Log("%v %d", k.err == nil, len(k.sends))
	}})
	// answers about several objects that break off or report an error anywhere
	xp.Add(&xp.Unit{Prop: "P07", Name: "several", Weight: 2, Cfg: plainCfg, Body: func() {
		n := 1 + mcrt.Choose(3, "objects")
		np := 1 + mcrt.Choose(3, "properties")
		d := &model{inst: 100, ip: ipDevA, max: 1476, seg: 3}
		if mcrt.Choose(2, "routed") == 1 {
			d.net, d.adr = 5, []byte{9}
		}
		var rq btypes.MultiplePropertyData
		var want []ref.Obj
		var ends []int
		props := []uint32{77, 85, 28}
		for i := 0; i < n; i++ {
			id := btypes.ObjectID{Type: 2, Instance: btypes.ObjectInstance(i)}
			o := mobj{id, map[uint32]interface{}{77: fmt.Sprint("object ", i), 85: float32(i) + 0.5, 28: []interface{}{uint32(i), "x"}}}
			d.objs = append(d.objs, o)
			q, w := btypes.Object{ID: id}, ref.Obj{ID: id}
			for _, p := range props[:np] {
				q.Properties = append(q.Properties, btypes.Property{Type: btypes.PropertyType(p), ArrayIndex: ref.ArrayAll})
				w.Props = append(w.Props, ref.Prop{Type: p, Index: ref.ArrayAll, Value: o.props[p]})
			}
			rq.Objects, want = append(rq.Objects, q), append(want, w)
			ends = append(ends, 3+len(ref.ReadMultipleAck(want)))
		}
		tries, whole, between := 0, true, 0
		var bad *refusal
		switch mcrt.Choose(3, "answer") {
		case 1: // it breaks off
			k := mcrt.Choose(ends[n-1], "length")
			whole = false
			for i, e := range ends {
				if k == e {
					between = i + 1
				}
			}
			if k == 3 {
				return // no object at all
			}
			d.cut = func(b []byte) []byte { tries++; return b[:k] }
		case 2: // one of them has an error
			bad = &refusal{class: uint32(mcrt.Choose(3, "class")), code: []uint32{0, 31, 32}[mcrt.Choose(3, "code")]}
			whole = false
			d.objs[mcrt.Choose(n, "object")].props[props[mcrt.Choose(np, "property")]] = bad
		}
		w := newMW(d)
		got, err := w.cli.ReadMultiProperty(d.device(), rq)
		switch {
		case whole && err != nil:
			mcrt.Fail("reading %d objects fails: %v", n, err)
		case whole:
			if s := sameObjs(want, got.Objects); s != "" {
				mcrt.Fail("reading %d objects: %s", n, s)
			}
		case between > 0 && err == nil:
			if s := sameObjs(want[:between], got.Objects); s != "" {
				mcrt.Fail("reading %d objects, of which %d are answered: %s", n, between, s)
			}
		case err == nil:
			mcrt.Fail("reading %d objects succeeds with %+v; error: %v", n, got, bad)
		case bad != nil && !names(err, bad.class, bad.code):
			mcrt.Fail("reading an object with an error of class %d code %d: %v", bad.class, bad.code, err)
		}
		d.cut = nil
		if bad == nil {
			got, err = w.cli.ReadMultiProperty(d.device(), rq)
			if err != nil || sameObjs(want, got.Objects) != "" {
				mcrt.Fail("reading again: %v, %v", got, err)
			}
		}
		mcrt.Log("%v", err == nil)
	}})
	// every error class and code is named
	xp.Add(&xp.Unit{Prop: "P07", Name: "error-codes", Cfg: plainCfg, Body: func() {
		w := newCW()
		k := w.newCall(mcrt.Choose(4, "kind"), ipDevA, 5)
		class := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 200, 0x10002}[mcrt.Choose(11, "class")]
		codes := []uint32{200, 256, 300, 65535}
		for i := uint32(0); i < 140; i++ {
			codes = append(codes, i)
		}
		code := codes[mcrt.Choose(len(codes), "code")]
		br := mcrt.Choose(2, "brackets") == 1
		w.reply = func(k *call, attempt int, m *wire) {
			pdu := ref.ErrorPDU(m.id, k.svc, class, code)
			if br {
				pdu = ref.ErrorPDU0(m.id, k.svc, class, code)
			}
			w.inject(k.ip, plain(pdu))
		}
		k.do(w.cli)
		if !names(k.err, class, code) {
			mcrt.Fail("%s answered by an error of class %d and code %d: %v", k.name, class, code, k.err)
		}
		mcrt.Log("%d", class)
	}})
}
