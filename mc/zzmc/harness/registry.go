package main

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/network"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P23: the registry

// entry is what the registry has to have under a name.
type entry struct {
	dev bool
	n   int // device identifier, or port
}

type reg struct {
	st   *network.Store
	want map[string]entry
	nets []*network.Network
	n    int // counts what is made
}

// longCfg is for executions that last years.
var longCfg = mcrt.Config{SwitchCost: 1, Horizon: 5 * 400 * 24 * time.Hour}

var regNames = []string{"a", "b", ""}

func (r *reg) check(after string) {
	for _, k := range append([]string{"never"}, regNames...) {
		e, ok := r.want[k]
		n, err := r.st.GetNetwork(k)
		switch {
		case ok && !e.dev && (err != nil || n == nil || n.Port != e.n):
			mcrt.Fail("after %s: network %q is %+v, %v instead of the one with port %d", after, k, n, err, e.n)
		case (!ok || e.dev) && (err == nil || n != nil):
			mcrt.Fail("after %s: there is no network %q, and %+v, %v is returned", after, k, n, err)
		}
		d, err := r.st.GetDevice(k)
		switch {
		case ok && e.dev && (err != nil || d == nil || d.DeviceID != e.n):
			mcrt.Fail("after %s: device %q is %+v, %v instead of %d", after, k, d, err, e.n)
		case (!ok || !e.dev) && (err == nil || d != nil):
			mcrt.Fail("after %s: there is no device %q, and %+v, %v is returned", after, k, d, err)
		}
	}
}

// anyNet is a network to make devices for: the last one, or one outside the registry.
func (r *reg) anyNet() *network.Network {
	if len(r.nets) == 0 {
		return r.outside()
	}
	return r.nets[len(r.nets)-1]
}

func (r *reg) outside() *network.Network {
	n, err := network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 60000, Store: network.NewStore(), StoreID: "elsewhere"})
	if err != nil {
		mcrt.Fail("network.New: %v", err)
	}
	r.nets = append(r.nets, n)
	return n
}

type regOp struct {
	name string
	ok   bool
	do   func(r *reg, key string, n int) (entry, error)
}

func dev23(n int) *network.Device {
	return &network.Device{Ip: "10.0.0.20", DeviceID: n, MaxApdu: 480, Segmentation: 3}
}

func regOps() []regOp {
	var ops []regOp
	add := func(name string, ok bool, f func(r *reg, key string, n int) (entry, error)) {
		ops = append(ops, regOp{name, ok, f})
	}
	add("new network", true, func(r *reg, k string, n int) (entry, error) {
		x, err := network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 50000 + n, Store: r.st, StoreID: k})
		if err == nil {
			r.nets = append(r.nets, x)
		}
		return entry{false, 50000 + n}, err
	})
	add("store network", true, func(r *reg, k string, n int) (entry, error) {
		err := r.st.NewNetwork(k, "", "10.0.0.5", 50000+n, 24)
		if err == nil {
			if x, err := r.st.GetNetwork(k); err == nil {
				r.nets = append(r.nets, x)
			}
		}
		return entry{false, 50000 + n}, err
	})
	add("new device", true, func(r *reg, k string, n int) (entry, error) {
		d := dev23(n)
		d.StoreID = k
		x := r.anyNet()
		st := x.Store
		got, err := network.NewDevice(x, d)
		if err == nil && (got == nil || got.DeviceID != n) {
			mcrt.Fail("NewDevice returns %+v", got)
		}
		if err == nil && st != r.st {
			// it went to the registry of its network
			if g, err := st.GetDevice(k); err != nil || g.DeviceID != n {
				mcrt.Fail("the registry of the network has the device %+v, %v", g, err)
			}
			return r.want[k], nil
		}
		return entry{true, n}, err
	})
	add("update device", true, func(r *reg, k string, n int) (entry, error) {
		return entry{true, n}, r.st.UpdateDevice(k, r.anyNet(), dev23(n))
	})
	add("update device that carries another name", true, func(r *reg, k string, n int) (entry, error) {
		d := dev23(n)
		d.StoreID = regNames[(n+len(k))%2]
		return entry{true, n}, r.st.UpdateDevice(k, r.anyNet(), d)
	})
	add("update stored device", true, func(r *reg, k string, n int) (entry, error) {
		d, err := r.st.GetDevice("a")
		if err != nil {
			return r.want[k], nil
		}
		return entry{true, d.DeviceID}, r.st.UpdateDevice(k, r.anyNet(), d)
	})
	// incomplete and wrong arguments
	add("new network without anything", false, func(r *reg, k string, n int) (entry, error) {
		x, err := network.New(nil)
		if x != nil {
			mcrt.Fail("network.New(nil) returns %+v", x)
		}
		return entry{}, err
	})
	add("new network without registry", false, func(r *reg, k string, n int) (entry, error) {
		_, err := network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 50000 + n, StoreID: k})
		return entry{}, err
	})
	add("new network with an empty registry", false, func(r *reg, k string, n int) (entry, error) {
		_, err := network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 50000 + n, StoreID: k, Store: &network.Store{}})
		return entry{}, err
	})
	add("new network with an invalid port", false, func(r *reg, k string, n int) (entry, error) {
		_, err := network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 70000, StoreID: k, Store: r.st})
		return entry{}, err
	})
	add("new network without address", false, func(r *reg, k string, n int) (entry, error) {
		_, err := network.New(&network.Network{Port: 50000 + n, StoreID: k, Store: r.st})
		return entry{}, err
	})
	add("store network with an invalid address", false, func(r *reg, k string, n int) (entry, error) {
		return entry{}, r.st.NewNetwork(k, "", "10.0.0", 50000+n, 24)
	})
	add("store network in an empty registry", false, func(r *reg, k string, n int) (entry, error) {
		return entry{}, (&network.Store{}).NewNetwork(k, "", "10.0.0.5", 50000+n, 24)
	})
	add("new device without network", false, func(r *reg, k string, n int) (entry, error) {
		d := dev23(n)
		d.StoreID = k
		x, err := network.NewDevice(nil, d)
		if x != nil {
			mcrt.Fail("NewDevice without network returns %+v", x)
		}
		return entry{}, err
	})
	add("new device without anything", false, func(r *reg, k string, n int) (entry, error) {
		_, err := network.NewDevice(r.anyNet(), nil)
		return entry{}, err
	})
	add("new device with an invalid address", false, func(r *reg, k string, n int) (entry, error) {
		d := dev23(n)
		d.StoreID, d.Ip = k, "10.0.0.300"
		_, err := network.NewDevice(r.anyNet(), d)
		return entry{}, err
	})
	add("new device with an invalid port", false, func(r *reg, k string, n int) (entry, error) {
		d := dev23(n)
		d.StoreID, d.Port = k, 65536
		_, err := network.NewDevice(r.anyNet(), d)
		return entry{}, err
	})
	add("update without device", false, func(r *reg, k string, n int) (entry, error) {
		return entry{}, r.st.UpdateDevice(k, r.anyNet(), nil)
	})
	add("update without network", false, func(r *reg, k string, n int) (entry, error) {
		return entry{}, r.st.UpdateDevice(k, nil, dev23(n))
	})
	add("update with an invalid address", false, func(r *reg, k string, n int) (entry, error) {
		d := dev23(n)
		d.Ip = ""
		return entry{}, r.st.UpdateDevice(k, r.anyNet(), d)
	})
	add("look up in an empty registry", false, func(r *reg, k string, n int) (entry, error) {
		if x, err := (&network.Store{}).GetNetwork(k); err == nil || x != nil {
			mcrt.Fail("an empty registry returns the network %+v, %v", x, err)
		}
		x, err := (&network.Store{}).GetDevice(k)
		if x != nil {
			mcrt.Fail("an empty registry returns the device %+v", x)
		}
		return entry{}, err
	})
	return ops
}

func (r *reg) step(op regOp, k string) {
	r.n++
	what := fmt.Sprintf("%s %q", op.name, k)
	r.anyNet()
	open := mcrt.OpenSockets()
	e, err := op.do(r, k, r.n)
	if (err == nil) != op.ok {
		mcrt.Fail("%s: %v", what, err)
	}
	if err == nil && e != (entry{}) {
		r.want[k] = e
	}
	if n := mcrt.OpenSockets(); err != nil && n != open {
		mcrt.Fail("%s fails and leaves %d sockets open", what, n-open)
	}
	r.check(what)
}

func init() {
	history := func(depth, good int) func() {
		return func() {
			r := &reg{st: network.NewStore(), want: map[string]entry{}}
			ops := regOps()
			if good > 0 {
				ops = ops[:good]
			}
			r.check("nothing")
			d := depth
			if xp.Deep {
				d++
			}
			for i := 0; i < d; i++ {
				k := mcrt.Choose(len(ops)+1, "operation")
				if k == 0 {
					break
				}
				r.step(ops[k-1], regNames[mcrt.Choose(len(regNames), "name")])
			}
			// it stays so
			for _, t := range []time.Duration{time.Second, 10 * time.Minute, 400 * 24 * time.Hour} {
				mcrt.Sleep(t)
				r.check(fmt.Sprint("another ", t))
			}
			mcrt.Log(fmt.Sprint(len(r.want)))
		}
	}
	direct := func(f func()) func() { return func() { mcrt.DirectMode(true); f() } }
	xp.Add(&xp.Unit{Prop: "P23", Name: "histories", Weight: 2, Cfg: longCfg, Body: direct(history(4, 6))})
	xp.Add(&xp.Unit{Prop: "P23", Name: "incomplete", Weight: 2, Cfg: longCfg, Body: direct(history(2, 0))})
	xp.Add(&xp.Unit{Prop: "P23", Name: "many-names", Cfg: longCfg, Body: direct(func() {
		// many names at once, in every position
		r := &reg{st: network.NewStore(), want: map[string]entry{}}
		ops := regOps()
		n := []int{10, 100, 1100}[mcrt.Choose(3, "names")]
		again := mcrt.Choose(4, "stored again") * (n - 1) / 3
		r.step(ops[mcrt.Choose(2, "network")], "the network")
		name := func(i int) string { return fmt.Sprint("name ", i) }
		for i := 0; i < n; i++ {
			if err := r.st.UpdateDevice(name(i), r.nets[0], dev23(1000+i)); err != nil {
				mcrt.Fail("device %d: %v", i, err)
			}
		}
		if err := r.st.UpdateDevice(name(again), r.nets[0], dev23(5000)); err != nil {
			mcrt.Fail("device %d again: %v", again, err)
		}
		for _, t := range []time.Duration{0, 24 * time.Hour} {
			mcrt.Sleep(t)
			for i := 0; i < n; i++ {
				want := 1000 + i
				if i == again {
					want = 5000
				}
				if d, err := r.st.GetDevice(name(i)); err != nil || d == nil || d.DeviceID != want {
					mcrt.Fail("after storing %d devices, that under %q is %+v, %v instead of %d", n, name(i), d, err, want)
				}
			}
			if x, err := r.st.GetNetwork("the network"); err != nil || x == nil || x.Port != r.want["the network"].n {
				mcrt.Fail("after storing %d devices, the network is %+v, %v", n, x, err)
			}
			r.check("storing devices")
		}
		mcrt.Log("ok")
	})})
	xp.Add(&xp.Unit{Prop: "P23", Name: "again", Cfg: plainCfg, Body: direct(func() {
		// what replaces something under a name differs from it in a single field, or not at all
		st := network.NewStore()
		other, err := network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 60000, Store: network.NewStore(), StoreID: "elsewhere"})
		if err != nil {
			mcrt.Fail("network.New: %v", err)
		}
		if mcrt.Choose(2, "kind") == 0 {
			field := mcrt.Choose(4, "field")
			way := []int{mcrt.Choose(2, "first"), mcrt.Choose(2, "second")}
			var last *network.Network
			for i := 0; i < 2; i++ {
				x := network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 50000, Store: st, StoreID: "a"}
				if i == 1 {
					switch field {
					case 1:
						x.SubnetCIDR = 16
					case 2:
						x.Port = 50001
					case 3:
						x.Ip, x.SubnetCIDR, x.Interface = "", 0, "10.0.0.5/24"
					}
				}
				if last != nil {
					if err := last.NetworkClose(false); err != nil {
						mcrt.Fail("NetworkClose: %v", err)
					}
				}
				if way[i] == 0 {
					y := x
					if _, err := network.New(&y); err != nil {
						mcrt.Fail("network %d: %v", i, err)
					}
				} else if err := st.NewNetwork("a", x.Interface, x.Ip, x.Port, x.SubnetCIDR); err != nil {
					mcrt.Fail("network %d: %v", i, err)
				}
				got, err := st.GetNetwork("a")
				if err != nil || got == nil || got.Ip != x.Ip || got.SubnetCIDR != x.SubnetCIDR || got.Port != x.Port || got.Interface != x.Interface {
					mcrt.Fail("network %d is %+v, %v instead of %+v", i, got, err, x)
				}
				last = got
			}
			if n := mcrt.OpenSockets(); n != 2 {
				mcrt.Fail("%d sockets are open", n)
			}
			if err := last.NetworkClose(false); err != nil || mcrt.OpenSockets() != 1 {
				mcrt.Fail("closing what was looked up: %v, %d sockets are open", err, mcrt.OpenSockets())
			}
		} else {
			field := mcrt.Choose(10, "field")
			way := []int{mcrt.Choose(2, "first"), mcrt.Choose(2, "second")}
			nets := []*network.Network{other, {Store: other.Store}} // the second was never opened
			n := nets[mcrt.Choose(2, "network")]
			n.Store = st
			for i := 0; i < 2; i++ {
				x := network.Device{Ip: "10.0.0.20", Port: 47808, DeviceID: 7, NetworkNumber: 5, MacMSTP: 9, MaxApdu: 480, Segmentation: 3, StoreID: "a", DeviceName: "n", VendorName: "v"}
				if i == 1 {
					switch field {
					case 1:
						x.Ip = "10.0.0.21"
					case 2:
						x.Port = 47809
					case 3:
						x.DeviceID = 8
					case 4:
						x.NetworkNumber = 6
					case 5:
						x.MacMSTP = 10
					case 6:
						x.MaxApdu = 1476
					case 7:
						x.Segmentation = 0
					case 8:
						x.DeviceName = ""
					case 9:
						x.VendorName = ""
					}
				}
				y := x
				var err error
				if way[i] == 0 {
					_, err = network.NewDevice(n, &y)
				} else {
					err = st.UpdateDevice("a", n, &y)
				}
				if err != nil {
					mcrt.Fail("device %d: %v", i, err)
				}
				d, err := st.GetDevice("a")
				if err != nil || d == nil || d.Ip != x.Ip || d.Port != x.Port || d.DeviceID != x.DeviceID || d.NetworkNumber != x.NetworkNumber || d.MacMSTP != x.MacMSTP || d.MaxApdu != x.MaxApdu || d.Segmentation != x.Segmentation || d.DeviceName != x.DeviceName || d.VendorName != x.VendorName {
					mcrt.Fail("device %d is %+v, %v instead of %+v", i, d, err, x)
				}
			}
		}
		mcrt.Log("ok")
	})})
	xp.Add(&xp.Unit{Prop: "P23", Name: "port-in-use", Cfg: plainCfg, Body: direct(func() {
		// a network that cannot be opened leaves what was there
		r := &reg{st: network.NewStore(), want: map[string]entry{}}
		ops := regOps()
		r.step(ops[mcrt.Choose(2, "first")], "a")
		open := mcrt.OpenSockets()
		var err error
		k := regNames[mcrt.Choose(2, "name")]
		if mcrt.Choose(2, "second") == 0 {
			_, err = network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 50001, Store: r.st, StoreID: k})
		} else {
			err = r.st.NewNetwork(k, "", "10.0.0.5", 50001, 24)
		}
		if err == nil || mcrt.OpenSockets() != open {
			mcrt.Fail("a network is opened at a port that is in use: %v", err)
		}
		r.check("a failure")
		mcrt.Log("ok")
	})})
	xp.Add(&xp.Unit{Prop: "P23", Name: "usable", Cfg: plainCfg, Body: func() {
		// what was stored and looked up works
		d := placed(mcrt.Choose(len(places), "place"))
		d.objs = []mobj{{btypes.ObjectID{Type: 2, Instance: 1}, map[uint32]interface{}{85: float32(1.5)}}}
		mcrt.DirectMode(true)
		st := network.NewStore()
		iface, ip, cidr := "", "10.0.0.5", 24
		if mcrt.Choose(2, "interface") == 1 {
			iface, ip, cidr = "10.0.0.5/24", "", 0
		}
		if mcrt.Choose(2, "way") == 0 {
			if _, err := network.New(&network.Network{Interface: iface, Ip: ip, SubnetCIDR: cidr, Port: bacPort, Store: st, StoreID: "net"}); err != nil {
				mcrt.Fail("New: %v", err)
			}
		} else if err := st.NewNetwork("net", iface, ip, bacPort, cidr); err != nil {
			mcrt.Fail("NewNetwork: %v", err)
		}
		n, err := st.GetNetwork("net")
		if err != nil || n.Ip != ip || n.Interface != iface || n.Port != bacPort || n.SubnetCIDR != cidr || n.StoreID != "net" || n.Store != st {
			mcrt.Fail("the stored network is %+v, %v", n, err)
		}
		w := &nw{mw: &mw{cw: &cw{}, devs: []*model{d}}, net: n, store: st}
		w.sock = mcrt.Sockets()[0]
		mcrt.OnSend(w.serve)
		w.run = mcrt.GoHarness("receive", n.NetworkRun)
		mcrt.DirectMode(false)
		settle()
		x := d.netDevice()
		x.StoreID = "dev"
		if mcrt.Choose(2, "device") == 0 {
			if _, err := network.NewDevice(n, x); err != nil {
				mcrt.Fail("NewDevice: %v", err)
			}
		} else if err := st.UpdateDevice("dev", n, x); err != nil {
			mcrt.Fail("UpdateDevice: %v", err)
		}
		y, err := st.GetDevice("dev")
		if err != nil {
			mcrt.Fail("GetDevice: %v", err)
		}
		if v, err := y.PointReadFloat32(&network.Point{ObjectID: 1, ObjectType: 2}); err != nil || v != 1.5 {
			mcrt.Fail("a stored device reads %v, %v", v, err)
		}
		if err := n.NetworkClose(false); err != nil {
			mcrt.Fail("NetworkClose: %v", err)
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P23", Name: "concurrent", Weight: 2, Cfg: mcrt.Config{SwitchCost: 1}, Quick: 1, Deep: 2, Body: func() {
		// two threads store and look up, a third looks up
		mcrt.DirectMode(true)
		r := &reg{st: network.NewStore(), want: map[string]entry{}}
		base := r.outside()
		base.Store = r.st
		if mcrt.ChooseFree(2, "before") == 1 {
			if err := r.st.UpdateDevice("a", base, dev23(1)); err != nil {
				mcrt.Fail("UpdateDevice: %v", err)
			}
			r.want["a"] = entry{true, 1}
		}
		mcrt.DirectMode(false)
		could := map[string][]entry{"a": {r.want["a"]}, "b": {{}}}
		last := map[string][]entry{}
		var hs []*mcrt.Handle
		look := func(k string) entry {
			if n, err := r.st.GetNetwork(k); err == nil {
				return entry{false, n.Port}
			}
			if d, err := r.st.GetDevice(k); err == nil {
				return entry{true, d.DeviceID}
			}
			return entry{}
		}
		looks := func() {
			for _, k := range []string{"a", "b"} {
				e := look(k)
				ok := e == entry{} && len(could[k]) > 1 // both kinds are asked one after the other
				for _, x := range could[k] {
					ok = ok || x == e
				}
				if !ok {
					mcrt.Fail("%q is %v, which was never stored: %v", k, e, could[k])
				}
			}
		}
		var stores []func()
		for i := 0; i < 2; i++ {
			n := 10 + i
			op := mcrt.ChooseFree(4, "operation")
			k := []string{"a", "b"}[mcrt.ChooseFree(2, "name")]
			e := entry{op >= 2, n}
			if op < 2 {
				e.n = 50000 + n
			}
			could[k] = append(could[k], e)
			last[k] = append(last[k], e)
			stores = append(stores, func() {
				var err error
				switch op {
				case 0:
					_, err = network.New(&network.Network{Ip: "10.0.0.5", SubnetCIDR: 24, Port: 50000 + n, Store: r.st, StoreID: k})
				case 1:
					err = r.st.NewNetwork(k, "", "10.0.0.5", 50000+n, 24)
				case 2:
					d := dev23(n)
					d.StoreID = k
					_, err = network.NewDevice(base, d)
				case 3:
					err = r.st.UpdateDevice(k, base, dev23(n))
				}
				if err != nil {
					mcrt.Fail("storing %q: %v", k, err)
				}
			})
		}
		// who is the first to start
		looker := mcrt.ChooseFree(2, "looks first")
		if looker == 1 {
			hs = append(hs, mcrt.GoHarness("look", looks))
		}
		for i, f := range stores {
			hs = append(hs, mcrt.GoHarness(fmt.Sprint("store ", i), f))
		}
		if looker == 0 {
			hs = append(hs, mcrt.GoHarness("look", looks))
		}
		for _, h := range hs {
			h.Join()
		}
		for _, k := range []string{"a", "b"} {
			e := look(k)
			ok := len(last[k]) == 0 && e == could[k][0]
			for _, x := range last[k] {
				ok = ok || x == e
			}
			if !ok {
				mcrt.Fail("%q is %v at the end; stored were %v", k, e, last[k])
			}
		}
		mcrt.Log("ok")
	}})
}
