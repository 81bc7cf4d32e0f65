package main

import (
	"fmt"
	"sort"

	bacnet "github.com/NubeDev/bacnet"
	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/ref"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P22: discovery

// spots where the devices of a discovery can be
var spots = []model{
	{ip: ipDevA},
	{ip: ipDevB},
	{ip: ipDevA, port: 47900},
	{ip: ipDevA, net: 5, adr: []byte{7}},
	{ip: ipDevA, net: 5, adr: []byte{8}},
	{ip: ipDevA, net: 6, adr: []byte{7}},
	{ip: ipDevB, port: 47900, net: 5, adr: []byte{0}},
	{ip: ipDevA, net: 7, adr: []byte{1, 2, 3}},
	{ip: ipDevB, net: 8, adr: []byte{10, 1, 1, 1, 0xBA, 0xC0}},
}

// the ways in which a device answers the question for a detail
const (
	dGood = iota
	dSilent
	dError
	dWrong
	dOther // good, but not what was announced
	dModes
)

var detailProps = []uint32{77, 62, 121, 107}

func found(i, inst int) *model {
	d := spots[i]
	d.inst, d.seg, d.vendor = uint32(inst), 3, uint32(inst%50)
	d.max = []int{480, 1476, 206}[inst%3]
	id := btypes.ObjectID{Type: 8, Instance: btypes.ObjectInstance(inst)}
	d.objs = []mobj{{id, map[uint32]interface{}{77: fmt.Sprint("device ", inst), 62: uint32(d.max), 121: fmt.Sprint("vendor ", inst), 107: ref.Enum(d.seg)}}}
	return &d
}

// detail makes the device answer like this.
func (d *model) detail(prop uint32, mode int) {
	m := d.objs[0].props
	switch mode {
	case dSilent:
		if d.mute == nil {
			d.mute = map[uint32]bool{}
		}
		d.mute[prop] = true
	case dError:
		m[prop] = &refusal{class: 2, code: 32}
	case dWrong:
		m[prop] = []interface{}{float32(1), "x"}
	case dOther:
		switch prop {
		case 62:
			m[prop] = uint32(1024)
		case 107:
			m[prop] = ref.Enum(1)
		}
	}
	if mode == dSilent || mode == dError || mode == dWrong {
		d.failing = append(d.failing, prop)
	}
}

func (d *model) says(prop uint32) bool {
	for _, p := range d.failing {
		if p == prop {
			return false
		}
	}
	return true
}

// judge compares a record with the device; max and seg may be what was announced or what was answered.
func (d *model) judge(what string, inst int, ip string, port, net, mac int, name, vendor string, max, seg uint32) string {
	if ip != fmt.Sprintf("%d.%d.%d.%d", d.ip[0], d.ip[1], d.ip[2], d.ip[3]) || port != d.udp() {
		return fmt.Sprintf("%s has the address %s port %d instead of %v port %d", what, ip, port, d.ip, d.udp())
	}
	m := 0
	if len(d.adr) > 0 {
		m = int(d.adr[0])
	}
	if net != int(d.net) || mac != m {
		return fmt.Sprintf("%s is said to be station %d of network %d instead of %v of network %d", what, mac, net, d.adr, d.net)
	}
	p := d.objs[0].props
	switch {
	case d.says(77) && name != p[77].(string), !d.says(77) && name != "":
		return fmt.Sprintf("%s has the name %q", what, name)
	case d.says(121) && vendor != p[121].(string), !d.says(121) && vendor != "":
		return fmt.Sprintf("%s has the vendor name %q", what, vendor)
	case max != uint32(d.max) && !(d.says(62) && max == p[62].(uint32)):
		return fmt.Sprintf("%s has the size limit %d", what, max)
	case seg != d.seg && !(d.says(107) && seg == uint32(p[107].(ref.Enum))):
		return fmt.Sprintf("%s has the segmentation %d", what, seg)
	}
	return ""
}

// records checks the result of either search; back tells what a device is through its record.
type record struct {
	inst      int
	ip        string
	port      int
	net, mac  int
	name      string
	vendor    string
	max, seg  uint32
	addr      *btypes.Address
	read      func() (string, error)
	vendorNum uint32
}

func discover(w *nw, how int, opts *bacnet.WhoIsOpts) ([]record, error) {
	var out []record
	switch how {
	case 0:
		l, err := w.device(placed(1)).DeviceDiscover(opts)
		for _, x := range l {
			x := x
			if x == nil {
				mcrt.Fail("the discovery returns nothing for a device")
			}
			inst := x.DeviceID
			out = append(out, record{x.DeviceID, x.Ip, x.Port, x.NetworkNumber, x.MacMSTP, x.DeviceName, x.VendorName, x.MaxApdu, x.Segmentation, nil, func() (string, error) {
				return x.ReadPointName(&network.Point{ObjectID: btypes.ObjectInstance(inst), ObjectType: 99})
			}, 0})
		}
		return out, err
	case 1:
		l, err := w.net.NetworkDiscover(opts)
		for i := range l {
			x := l[i]
			inst := x.DeviceID
			if int(x.ID.Instance) != inst || x.ID.Type != 8 {
				mcrt.Fail("device %d has the identifier %v", inst, x.ID)
			}
			out = append(out, record{inst, x.Ip, x.Port, x.NetworkNumber, x.MacMSTP, x.DeviceName, x.VendorName, x.MaxApdu, uint32(x.Segmentation), &x.Addr, nil, x.Vendor})
		}
		return out, err
	}
	l, err := w.net.Whois(opts)
	for i := range l {
		x := l[i]
		out = append(out, record{x.DeviceID, x.Ip, x.Port, x.NetworkNumber, x.MacMSTP, "", "", x.MaxApdu, uint32(x.Segmentation), &x.Addr, nil, x.Vendor})
	}
	return out, err
}

func discovered(how int, devs []*model, opts *bacnet.WhoIsOpts) {
	// every device has an object with its own name, behind which the record is checked
	for _, d := range devs {
		d.objs = append(d.objs, mobj{btypes.ObjectID{Type: 99, Instance: btypes.ObjectInstance(d.inst)}, map[uint32]interface{}{77: fmt.Sprint("own ", d.inst)}})
	}
	w := newNW(devs...)
	recs, err := discover(w, how, opts)
	if err != nil {
		mcrt.Fail("the discovery fails: %v", err)
	}
	if len(recs) != len(devs) {
		mcrt.Fail("%d devices answer, %d are returned", len(devs), len(recs))
	}
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].inst < recs[j].inst })
	for i, r := range recs {
		d := devs[i]
		what := fmt.Sprintf("device %d", d.inst)
		if r.inst != int(d.inst) {
			mcrt.Fail("device %d is returned as %d", d.inst, r.inst)
		}
		if how == 2 {
			d.failing = detailProps
		}
		if s := d.judge(what, r.inst, r.ip, r.port, r.net, r.mac, r.name, r.vendor, r.max, r.seg); s != "" {
			mcrt.Fail("%s", s)
		}
		if a := r.addr; a != nil && (string(a.Mac) != string(station(d.ip, d.udp())) || a.Net != d.net || string(a.Adr) != string(d.adr)) {
			mcrt.Fail("%s has the address %+v", what, *a)
		}
		if how > 0 && r.vendorNum != d.vendor {
			mcrt.Fail("%s has the vendor %d", what, r.vendorNum)
		}
		if r.read != nil {
			if s, err := r.read(); err != nil || s != fmt.Sprint("own ", d.inst) {
				mcrt.Fail("reading from the record of %s gives %q, %v", what, s, err)
			}
		}
	}
	mcrt.Log(fmt.Sprint(len(recs)))
}

func init() {
	anyDev := func() *bacnet.WhoIsOpts { return &bacnet.WhoIsOpts{Low: -1, High: -1, GlobalBroadcast: true} }
	xp.Add(&xp.Unit{Prop: "P22", Name: "places", Weight: 2, Cfg: plainCfg, Body: func() {
		// up to three devices at all places
		how := mcrt.Choose(3, "search")
		var devs []*model
		for i := 0; i < 3; i++ {
			k := mcrt.Choose(len(spots)+1, "place")
			if k == 0 {
				break
			}
			for _, d := range devs {
				if s := spots[k-1]; d.ip == s.ip && d.port == s.port && d.net == s.net && string(d.adr) == string(s.adr) {
					return
				}
			}
			devs = append(devs, found(k-1, []int{0, 7, 4194302}[i]))
		}
		discovered(how, devs, anyDev())
	}})
	xp.Add(&xp.Unit{Prop: "P22", Name: "details", Weight: 2, Cfg: plainCfg, Body: func() {
		// every way to answer the four questions, for one of two devices
		how := mcrt.Choose(2, "search")
		a, b := found(mcrt.Choose(4, "place"), 10), found(4, 11)
		who := a
		if mcrt.Choose(2, "second") == 1 {
			who = b
		}
		for _, p := range detailProps {
			who.detail(p, mcrt.Choose(dModes, "detail"))
		}
		discovered(how, []*model{a, b}, anyDev())
	}})
	xp.Add(&xp.Unit{Prop: "P22", Name: "silent", Cfg: plainCfg, Body: func() {
		// each detail of each of three devices is there or not
		how := mcrt.Choose(2, "search")
		devs := []*model{found(0, 10), found(3, 11), found(2, 12)}
		mode := []int{dSilent, dError}[mcrt.Choose(2, "mode")]
		for _, d := range devs {
			for _, p := range detailProps {
				if mcrt.Choose(2, "answers") == 1 {
					d.detail(p, mode)
				}
			}
		}
		discovered(how, devs, anyDev())
	}})
	xp.Add(&xp.Unit{Prop: "P22", Name: "ranges", Cfg: plainCfg, Body: func() {
		// a range of identifiers
		how := mcrt.Choose(3, "search")
		ids := []int{0, 1, 5, 4194302}
		lo, hi := ids[mcrt.Choose(4, "low")], ids[mcrt.Choose(4, "high")]
		if lo > hi {
			return
		}
		var in []*model
		var all []*model
		for i, id := range ids {
			d := found(i, id)
			all = append(all, d)
			if id >= lo && id <= hi {
				in = append(in, d)
			}
		}
		_ = all
		discovered(how, in, &bacnet.WhoIsOpts{Low: lo, High: hi, GlobalBroadcast: mcrt.Choose(2, "global") == 1})
	}})
	xp.Add(&xp.Unit{Prop: "P22", Name: "orders", Cfg: plainCfg, Body: func() {
		// the same two devices discovered twice through one object
		a, b := found(0, 10), found(3, 11)
		w := newNW(a, b)
		dev := w.device(a)
		l1, err1 := dev.DeviceDiscover(anyDev())
		if mcrt.Choose(2, "renamed") == 1 {
			b.objs[0].props[77] = "renamed"
		}
		if mcrt.Choose(2, "gone") == 1 {
			w.devs = w.devs[1:]
		}
		l2, err2 := dev.DeviceDiscover(anyDev())
		if err1 != nil || err2 != nil || len(l1) != 2 || len(l2) != len(w.devs) {
			mcrt.Fail("two discoveries return %d and %d devices, %v, %v", len(l1), len(l2), err1, err2)
		}
		for _, l := range [][]*network.Device{l1, l2} {
			for _, x := range l {
				d, name := a, "device 10"
				if x.DeviceID == 11 {
					d, name = b, "device 11"
					if &l[0] == &l2[0] {
						name = b.objs[0].props[77].(string)
					}
				}
				if x.DeviceID != int(d.inst) || x.DeviceName != name || x.NetworkNumber != int(d.net) {
					mcrt.Fail("the record of device %d is %+v", d.inst, *x)
				}
			}
		}
		if len(w.devs) == 2 {
			if name, err := dev.ReadDeviceName(10); err != nil || name != "device 10" {
				mcrt.Fail("after discoveries the device reads as %q, %v", name, err)
			}
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P22", Name: "twins", Weight: 2, Cfg: plainCfg, Body: func() {
		// devices that agree in all but one detail
		how := mcrt.Choose(2, "search")
		n := 2 + mcrt.Choose(2, "devices")
		at := mcrt.Choose(n, "which")
		prop := detailProps[mcrt.Choose(len(detailProps), "detail")]
		mode := mcrt.Choose(dModes+1, "answer")
		near := mcrt.Choose(2, "place") // behind one router, or each at its own address
		var devs []*model
		for i := 0; i < n; i++ {
			d := found([]int{0, 3}[near], 10+i)
			if near == 0 {
				d.ip[3] += byte(50 + i)
			} else {
				d.adr = []byte{byte(9 - i)}
			}
			d.max, d.vendor = 480, 10
			m := d.objs[0].props
			m[77], m[62], m[121] = "the name", uint32(480), "the vendor"
			if i == at {
				d.detail(prop, mode%dModes)
				if mode == dModes && (prop == 77 || prop == 121) {
					m[prop] = ""
				}
			}
			devs = append(devs, d)
		}
		discovered(how, devs, anyDev())
	}})
	xp.Add(&xp.Unit{Prop: "P22", Name: "asked-again", Cfg: plainCfg, Body: func() {
		// the details of a device that was found before
		d := found(mcrt.Choose(len(spots), "place"), 10)
		w := newNW(d, found(4, 11))
		l, err := w.net.NetworkDiscover(anyDev())
		if err != nil || len(l) == 0 {
			mcrt.Fail("the discovery returns %v, %v", l, err)
		}
		m := d.objs[0].props
		m[77] = []string{"device 10", "another", ""}[mcrt.Choose(3, "name")]
		m[121] = []string{"vendor 10", "another", ""}[mcrt.Choose(3, "vendor name")]
		m[62] = []uint32{480, 1476, 50}[mcrt.Choose(3, "size limit")]
		m[107] = ref.Enum([]uint32{3, 0}[mcrt.Choose(2, "segmentation")])
		for _, x := range l {
			if x.DeviceID != 10 {
				continue
			}
			r, err := w.net.GetDeviceDetails(x)
			if err != nil || r == nil {
				mcrt.Fail("asking again: %v", err)
			}
			if r.Name != m[77].(string) || r.VendorName != m[121].(string) || r.MaxApdu != m[62].(uint32) || r.Segmentation != uint32(m[107].(ref.Enum)) {
				mcrt.Fail("a device with %v is said to have %+v", m, *r)
			}
		}
		mcrt.Log(fmt.Sprint(len(l)))
	}})
}
