package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/btypes/services"
	"github.com/NubeDev/bacnet/zzmc/mcrt"
	"github.com/NubeDev/bacnet/zzmc/xp"
)

// ---------------------------------------------------------------- P25: collections of objects and names

// the numbers of the standard (135-2020, clause 21)
var stdTypes = map[btypes.ObjectType]string{0: "AnalogInput", 1: "AnalogOutput", 2: "AnalogValue", 3: "BinaryInput", 4: "BinaryOutput", 5: "BinaryValue",
	8: "Device", 10: "File", 13: "MultiStateInput", 14: "MultiStateOutput", 15: "NotificationClass", 19: "MultiStateValue", 20: "TrendLog", 40: "CharacterString"}

var stdProps = map[string]btypes.PropertyType{"AllProperties": 8, "Description": 28, "FileSize": 42, "FileType": 43, "ModelName": 70, "ObjectIdentifier": 75,
	"ObjectList": 76, "ObjectName": 77, "ObjectReference": 78, "ObjectType": 79, "PresentValue": 85, "Units": 117, "PriorityArray": 87}

var stdServices = map[string]uint16{"acknowledgeAlarm": 0, "confirmedCOVNotification": 1, "confirmedEventNotification": 2, "getAlarmSummary": 3, "getEnrollmentSummary": 4,
	"subscribeCOV": 5, "atomicReadFile": 6, "atomicWriteFile": 7, "addListElement": 8, "removeListElement": 9, "createObject": 10, "deleteObject": 11, "readProperty": 12,
	"readPropertyMultiple": 14, "writeProperty": 15, "writePropertyMultiple": 16, "deviceCommunicationControl": 17, "confirmedPrivateTransfer": 18, "confirmedTextMessage": 19,
	"reinitializeDevice": 20, "vtOpen": 21, "vtClose": 22, "vtData": 23, "iAm": 26, "iHave": 27, "unconfirmedCOVNotification": 28, "unconfirmedEventNotification": 29,
	"unconfirmedPrivateTransfer": 30, "unconfirmedTextMessage": 31, "timeSynchronization": 32, "whoHas": 33, "whoIs": 34, "readRange": 35, "utcTimeSynchronization": 36,
	"lifeSafetyOperation": 37, "subscribeCOVProperty": 38, "getEventInformation": 39, "writeGroup": 40}

// sameObjects compares two collections; a type without objects is as good as no type.
func sameObjects(a, b btypes.ObjectMap) string {
	for _, x := range [][2]btypes.ObjectMap{{a, b}, {b, a}} {
		for t, sub := range x[0] {
			for i, o := range sub {
				p, ok := x[1][t][i]
				if !ok {
					return fmt.Sprintf("type %d instance %d is in one only", t, i)
				}
				if !reflect.DeepEqual(o, p) {
					return fmt.Sprintf("type %d instance %d: %+v and %+v", t, i, o, p)
				}
			}
		}
	}
	return ""
}

func size(m btypes.ObjectMap) int {
	n := 0
	for _, sub := range m {
		n += len(sub)
	}
	return n
}

// throughJSON converts a collection and back, into four kinds of variables.
func throughJSON(m btypes.ObjectMap, into int) {
	n := size(m)
	if m.Len() != n {
		mcrt.Fail("%v has %d objects, Len says %d", m, n, m.Len())
	}
	b, err := json.Marshal(m)
	if err != nil {
		mcrt.Fail("%v: %v", m, err)
	}
	var got btypes.ObjectMap
	switch into {
	case 0:
		got = btypes.ObjectMap{}
		err = json.Unmarshal(b, &got)
	case 1:
		err = json.Unmarshal(b, &got)
	case 2:
		var s struct{ O btypes.ObjectMap }
		err = json.Unmarshal([]byte(`{"O":`+string(b)+`}`), &s)
		got = s.O
	case 3:
		var s map[string]*btypes.ObjectMap
		err = json.Unmarshal([]byte(`{"O":`+string(b)+`}`), &s)
		if s["O"] != nil {
			got = *s["O"]
		}
	case 4:
		// the other way to write it
		var p []byte
		if p, err = json.MarshalIndent(&m, "", "  "); err == nil {
			err = json.Unmarshal(p, &got)
		}
	}
	if err != nil {
		mcrt.Fail("%s: %v", b, err)
	}
	if why := sameObjects(m, got); why != "" || got.Len() != n {
		mcrt.Fail("%+v becomes %s and this %+v: %s", m, b, got, why)
	}
	if size(m) != n {
		mcrt.Fail("the conversion changed the collection")
	}
}

func init() {
	types := []btypes.ObjectType{0, 1, 8, 40, 41, 128, 1023, 6, 65535}
	insts := []btypes.ObjectInstance{0, 1, 4194303, 4294967295}
	objs := func(t btypes.ObjectType, i btypes.ObjectInstance, kind int) btypes.Object {
		o := btypes.Object{Name: fmt.Sprintf("%d/%d", t, i), ID: btypes.ObjectID{Type: t, Instance: i}}
		switch kind {
		case 1:
			o.Name, o.Description = "Ünïcode \"quoted\" <&> \\", "line\nbreak\x00"
		case 2:
			o = btypes.Object{}
		case 3:
			o.Properties = []btypes.Property{{Type: 85, ArrayIndex: 0xFFFFFFFF, Data: "text", Priority: 3}, {Type: 4194303, Data: true}, {}, {Type: 28, Data: 1.5}}
		}
		return o
	}
	iter := mcrt.Config{SwitchCost: 1, MapOrder: 3}
	// all collections of up to 3 objects of the types and instances
	xp.Add(&xp.Unit{Prop: "P25", Name: "collections", Weight: 2, Cfg: iter, Body: func() {
		mcrt.DirectMode(true)
		m := btypes.ObjectMap{}
		n := 2
		if xp.Deep {
			n = 3
		}
		first := 2 * mcrt.ChooseFree(2, "kind of the first")
		if xp.Deep {
			first += mcrt.ChooseFree(2, "kind of the first")
		}
		for k := 0; k < n; k++ {
			j := mcrt.ChooseFree(len(types)*len(insts)+2, "object")
			if j == 0 {
				break
			}
			if j == 1 {
				m[42] = map[btypes.ObjectInstance]btypes.Object{}
				continue
			}
			j -= 2
			t, i := types[j%len(types)], insts[j/len(types)]
			if m[t] == nil {
				m[t] = map[btypes.ObjectInstance]btypes.Object{}
			}
			m[t][i] = objs(t, i, (first+k)%4)
		}
		throughJSON(m, mcrt.ChooseFree(5, "into"))
		mcrt.Log(fmt.Sprint(m.Len()))
	}})
	// all object types, together and alone, all kinds of objects
	xp.Add(&xp.Unit{Prop: "P25", Name: "types", Cfg: plainCfg, Body: func() {
		mcrt.DirectMode(true)
		m := btypes.ObjectMap{}
		hi := mcrt.Choose(256, "block of types")
		kind := mcrt.Choose(4, "kind")
		for lo := 0; lo < 256; lo++ {
			t := btypes.ObjectType(hi<<8 | lo)
			i := btypes.ObjectInstance(lo * 16513)
			m[t] = map[btypes.ObjectInstance]btypes.Object{i: objs(t, i, kind)}
		}
		throughJSON(m, kind)
		mcrt.Log("ok")
	}})
	// reading a second text adds to what is there, and replaces the same objects
	xp.Add(&xp.Unit{Prop: "P25", Name: "added", Cfg: plainCfg, Body: func() {
		mcrt.DirectMode(true)
		var got btypes.ObjectMap
		want := btypes.ObjectMap{}
		for k := 0; k < 3; k++ {
			j := mcrt.Choose(8, "object")
			t, i := types[2+3*(j&1)], btypes.ObjectInstance(j>>1)
			o := objs(t, i, k)
			m := btypes.ObjectMap{t: {i: o}}
			b, err := json.Marshal(m)
			if err == nil {
				err = json.Unmarshal(b, &got)
			}
			if err != nil {
				mcrt.Fail("%v: %v", m, err)
			}
			if want[t] == nil {
				want[t] = map[btypes.ObjectInstance]btypes.Object{}
			}
			want[t][i] = o
		}
		if why := sameObjects(want, got); why != "" {
			mcrt.Fail("reading three texts one after the other gives %v instead of %v: %s", got, want, why)
		}
		mcrt.Log("ok")
	}})
	// texts that are no collections
	xp.Add(&xp.Unit{Prop: "P25", Name: "texts", Cfg: plainCfg, Body: func() {
		mcrt.DirectMode(true)
		var got btypes.ObjectMap
		if mcrt.Choose(2, "into") == 1 {
			got = btypes.ObjectMap{}
		}
		good := []string{"null", "{}", `{"AnalogInput":{}}`, `{"AnalogInput":null}`, `{"Unknown (500)":{}}`}
		bad := []string{"", "[]", "1", `"AnalogInput"`, "{", `{"AnalogInput":[]}`, `{"AnalogInput":{"x":{}}}`, `{"AnalogInput":{"-1":{}}}`, `{"AnalogInput":{"4294967296":{}}}`,
			`{"Pizza":{"1":{}}}`, `{"":{"1":{}}}`, `{"analoginput":{"1":{}}}`, `{"AnalogInput ":{"1":{}}}`, `{"Unknown":{"1":{}}}`, `{"Unknown ()":{"1":{}}}`, `{"Unknown (x)":{"1":{}}}`,
			`{"Unknown (65536)":{"1":{}}}`, `{"Unknown (70000)":{"1":{}}}`, `{"Unknown (-1)":{"1":{}}}`, `{"Unknown (500":{"1":{}}}`, `{"Unknown (500) ":{"1":{}}}`, `{"XUnknown (500)":{"1":{}}}`,
			`{"AnalogInput":{"1":{}},"Pizza":{"1":{}}}`, `{"AnalogInput":{"1":{"Name":5}}}`}
		k := mcrt.Choose(len(good)+len(bad), "text")
		if k < len(good) {
			if err := json.Unmarshal([]byte(good[k]), &got); err != nil || got.Len() != 0 {
				mcrt.Fail("%s becomes %v, %v", good[k], got, err)
			}
		} else if s := bad[k-len(good)]; json.Unmarshal([]byte(s), &got) == nil {
			mcrt.Fail("%s becomes %v without an error", s, got)
		}
		mcrt.Log("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P25", Name: "type-names", NoReset: true, Seq: func(c *xp.C) {
		hi := c.Choose(256)
		for lo := 0; lo < 256; lo++ {
			t := btypes.ObjectType(hi<<8 | lo)
			c.Step()
			s := t.String()
			if got := btypes.GetType(s); got != t {
				c.Fail("type %d has the name %q, which is type %d", uint16(t), s, uint16(got))
			}
			if want, ok := stdTypes[t]; ok && s != want {
				c.Fail("type %d has the name %q instead of %q", uint16(t), s, want)
			}
			for n, name := range stdTypes {
				if name == s && n != t {
					c.Fail("type %d has the name %q of type %d", uint16(t), s, uint16(n))
				}
			}
		}
		c.Note("%v", hi == 0)
	}})
	// what a device tells is shown under the name
	xp.Add(&xp.Unit{Prop: "P25", Name: "property-names", NoReset: true, Seq: func(c *xp.C) {
		keys := btypes.Keys()
		if c.Bool() {
			// a copy: changing it changes nothing
			for k := range keys {
				keys[k] = 4711
			}
			keys["Pizza"] = 1
			keys = btypes.Keys()
		}
		if len(keys) != len(stdProps) {
			c.Fail("there are %d names of properties instead of %d: %v", len(keys), len(stdProps), keys)
		}
		seen := map[btypes.PropertyType]string{}
		shown := map[string]btypes.PropertyType{}
		for name, p := range keys {
			c.Step()
			if stdProps[name] != p {
				c.Fail("%s is property %d instead of %d", name, p, stdProps[name])
			}
			if seen[p] != "" {
				c.Fail("property %d has the names %s and %s", p, name, seen[p])
			}
			seen[p] = name
			if got, err := btypes.Get(name); err != nil || got != p {
				c.Fail("%s converts to %d, %v instead of %d", name, got, err, p)
			}
			s := btypes.String(p)
			if q, ok := shown[s]; ok {
				c.Fail("the properties %d and %d are both shown as %q", p, q, s)
			}
			shown[s] = p
			var got int
			for i := len(s) - 1; i >= 0; i-- {
				if s[i] == '(' {
					fmt.Sscanf(s[i:], "(%d)", &got)
					break
				}
			}
			if got != int(p) {
				c.Fail("property %d is shown as %q", p, s)
			}
		}
		for _, name := range []string{"", "Pizza", "presentvalue", "Present Value", "PresentValue ", " Units", "85", "Unknown", "PropUnits"} {
			if p, err := btypes.Get(name); err == nil {
				c.Fail("%q is property %d", name, p)
			}
		}
		for p := btypes.PropertyType(0); p < 1<<16; p++ {
			if s := btypes.String(p); seen[p] == "" && shown[s] != 0 {
				c.Fail("property %d is shown as %q, like property %d", p, s, shown[s])
			}
		}
		c.Note("ok")
	}})
	xp.Add(&xp.Unit{Prop: "P25", Name: "service-names", NoReset: true, Seq: func(c *xp.C) {
		var s services.Supported
		list := s.ListAll()
		if len(list) != len(stdServices) {
			c.Fail("there are %d services instead of %d", len(list), len(stdServices))
		}
		index := map[int]string{}
		for typ, name := range list {
			c.Step()
			num, ok := stdServices[name]
			if !ok || typ.Name != name || typ.Number != num || typ.Supported {
				c.Fail("%s is the service %+v", name, typ)
			}
			if index[typ.Index] != "" || typ.Index < 0 || typ.Index >= len(list) {
				c.Fail("%s has the place %d of %q", name, typ.Index, index[typ.Index])
			}
			index[typ.Index] = name
			below := 0
			for _, n := range stdServices {
				if n < num {
					below++
				}
			}
			if typ.Index != below {
				c.Fail("%s has the place %d instead of %d", name, typ.Index, below)
			}
			got := s.GetType(name)
			if got == nil || *got != typ || s.GetString(*got) != name {
				c.Fail("%s is found as %+v", name, got)
			}
		}
		for _, name := range []string{"", "Pizza", "ReadProperty", "readproperty"} {
			if got := s.GetString(services.Supported{Name: name}); !strings.HasPrefix(got, "Unknown") {
				c.Fail("the unknown service %q is called %q", name, got)
			}
			if got := s.GetType(name); got != nil {
				c.Fail("%q is the service %+v", name, got)
			}
		}
		c.Note("ok")
	}})
}
