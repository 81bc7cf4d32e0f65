From 580320a7870b77cefeb679d9e44f04f7131b3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 01/44] fix: a late answer can no longer panic the sender or
 reach a later transaction

Releasing a transaction closed its data channel, so a Send in progress
panicked, and Send and Receive read the channel of a pooled state that might
already belong to another transaction.
---
 tsm/transactions.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/tsm/transactions.go b/tsm/transactions.go
index e892593..ce2f1a9 100644
--- a/tsm/transactions.go
+++ b/tsm/transactions.go
@@ -21,6 +21,7 @@ type state struct {
 	state        int
 	requestTimer int
 	data         chan interface{}
+	done         chan struct{} // closed when the transaction is released
 }
 
 // TSM is the transaction state manager. It handles passing data to other
@@ -40,7 +41,7 @@ func New(size int) *TSM {
 	t := &TSM{
 		states: make(map[int]*state), pool: sync.Pool{
 			// Operation doesn't include a new channel. We want that done when a get is
-			// done since we close all channels when putting into the pool.
+			// done since every transaction has channels of its own.
 			New: func() interface{} {
 				s := new(state)
 				return s
@@ -65,24 +66,34 @@ func New(size int) *TSM {
 
 // Send data to invoked id
 func (t *TSM) Send(id int, b interface{}) error {
+	data, done, ok := t.channels(id)
+	if !ok {
+		return fmt.Errorf("id %d is not receiving", id)
+	}
+	select {
+	case data <- b:
+		return nil
+	case <-done:
+		return fmt.Errorf("id %d was released", id)
+	}
+}
+
+// channels returns the channels of the transaction that holds the id now. They
+// stay those of this transaction, whatever happens to the id later on.
+func (t *TSM) channels(id int) (data chan interface{}, done chan struct{}, ok bool) {
 	t.mutex.Lock()
+	defer t.mutex.Unlock()
 	s, ok := t.states[id]
-	t.mutex.Unlock()
-
 	if !ok {
-		return fmt.Errorf("id %d is not receiving", id)
+		return nil, nil, false
 	}
-	s.data <- b
-	return nil
+	return s.data, s.done, true
 }
 
 // Receive attempts to receive a byte array from the invoked id. If a time out
 // period has passed then an error is returned
 func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
-	t.mutex.Lock()
-	s, ok := t.states[id]
-	t.mutex.Unlock()
-
+	data, done, ok := t.channels(id)
 	if !ok {
 		return nil, fmt.Errorf("id %d is not sending", id)
 	}
@@ -92,8 +103,10 @@ func (t *TSM) Receive(id int, timeout time.Duration) (interface{}, error) {
 
 	// Wait for data
 	select {
-	case b := <-s.data:
+	case b := <-data:
 		return b, nil
+	case <-done:
+		return nil, fmt.Errorf("id %d was released", id)
 	case <-ctx.Done():
 		return nil, fmt.Errorf("receive timed out (%v)", timeout)
 	}
@@ -121,6 +134,7 @@ func (t *TSM) ID(ctx context.Context) (int, error) {
 	s.state = idle
 	s.requestTimer = 0 // TODO: apdu_timeout
 	s.data = make(chan interface{})
+	s.done = make(chan struct{})
 
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
@@ -138,7 +152,8 @@ func (t *TSM) Put(id int) error {
 		return fmt.Errorf("id %d does not exist in the transactions", id)
 	}
 
-	close(s.data)
+	// Close done rather than data: a sender may still be blocked on data.
+	close(s.done)
 	t.pool.Put(s)
 	t.free.id <- id
 	t.free.space <- struct{}{}
-- 
2.43.0


From 8acdd694483ec237279d3b4e493f89d584de4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 02/44] fix: publishing to a subscriber that is leaving no
 longer deadlocks

Publish held the subscriber's mutex while it waited for it to receive, and the
subscriber needs this mutex before it receives; a subscriber that had stopped
receiving left Publish, and with it everybody else, blocked for ever.
---
 utsm/subscriber.go | 5 ++++-
 utsm/utsm.go       | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index f77099e..b3865c3 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -14,7 +14,9 @@ type subscriber struct {
 	lastReceivedTimeout time.Duration
 	lastReceived        time.Time
 	// Data channel is used for data transfer between subscriber and publisher
-	data  chan interface{}
+	data chan interface{}
+	// done is closed when the subscriber does not receive any more
+	done  chan struct{}
 	mutex *sync.Mutex
 }
 
@@ -54,6 +56,7 @@ func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]
 	var store []interface{}
 	s := m.newSubscriber(start, end, options)
 	defer m.removeSubscriber(s)
+	defer close(s.done)
 
 	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
 	defer cancel()
diff --git a/utsm/utsm.go b/utsm/utsm.go
index 3d34da3..c876934 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -66,8 +66,12 @@ func (m *Manager) Publish(id int, data interface{}) {
 		if id >= s.start && id <= s.end {
 			s.mutex.Lock()
 			s.lastReceived = time.Now()
-			s.data <- data
 			s.mutex.Unlock()
+			// The subscriber needs its mutex to get here, and it may be leaving.
+			select {
+			case s.data <- data:
+			case <-s.done:
+			}
 		}
 	}
 }
@@ -78,6 +82,7 @@ func (m *Manager) newSubscriber(start int, end int, options []SubscriberOption)
 		end:          end,
 		lastReceived: time.Now(),
 		data:         make(chan interface{}, 1),
+		done:         make(chan struct{}),
 		mutex:        &sync.Mutex{},
 	}
 	m.mutex.Lock()
-- 
2.43.0


From ad5717ce955d91bba7601540302ae8543b498dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:33 +0000
Subject: [PATCH 03/44] fix: a subscription no longer loses what was published
 just before it ends

When a publication and the timeout were both ready, select could choose the
timeout and drop the publication; the idle timeout also ended subscriptions
for which something had just been published.
---
 utsm/subscriber.go | 15 ++++++++++++---
 utsm/utsm.go       |  6 ++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index b3865c3..54a7724 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -55,9 +55,6 @@ func (s *subscriber) getTimeout() time.Duration {
 func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]interface{}, error) {
 	var store []interface{}
 	s := m.newSubscriber(start, end, options)
-	defer m.removeSubscriber(s)
-	defer close(s.done)
-
 	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
 	defer cancel()
 
@@ -67,6 +64,18 @@ func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]
 
 		select {
 		case <-c.Done():
+			if ctx.Err() == nil && s.getTimeout() > 0 {
+				// Something was published just before the timeout.
+				continue
+			}
+			close(s.done)
+			m.removeSubscriber(s)
+			// Nobody sends any more, but the last publication may be waiting.
+			select {
+			case b := <-s.data:
+				store = append(store, b)
+			default:
+			}
 			return store, nil
 		case b := <-s.data:
 			store = append(store, b)
diff --git a/utsm/utsm.go b/utsm/utsm.go
index c876934..128edad 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -69,6 +69,12 @@ func (m *Manager) Publish(id int, data interface{}) {
 			s.mutex.Unlock()
 			// The subscriber needs its mutex to get here, and it may be leaving.
 			select {
+			case <-s.done:
+				// Nothing more, also if there is room: it may have missed something.
+				continue
+			default:
+			}
+			select {
 			case s.data <- data:
 			case <-s.done:
 			}
-- 
2.43.0


From 9983d59a36be4db6aae948788e4346274bb3dff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 04/44] fix: doubles and negative integers are encoded in their
 standard form

A double had a tag with length 4, a negative integer always took four
bytes, a 24-bit one lost its sign, and a value of another type for a
binary point panicked although the error for it was there.
---
 encoding/appdata.go |  8 +++-----
 encoding/decoder.go | 12 ++----------
 encoding/encoder.go | 13 +++++++++++++
 encoding/general.go | 12 ++++++++++++
 4 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..8f7849b 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -74,7 +74,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
@@ -93,7 +92,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
@@ -106,10 +105,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..97baecb 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -149,16 +149,8 @@ func (d *Decoder) unsigned(length int) uint32 {
 }
 
 func (d *Decoder) signed24() int32 {
-	var a, b, c int8
-	d.decode(&a)
-	d.decode(&b)
-	d.decode(&c)
-
-	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
-	x |= int32((int32(b) << 8) & 0x0000ff00)
-	x |= int32(int32(c) & 0x000000ff)
-	return x
+	// the sign is that of the first byte
+	return int32(d.unsigned24()<<8) >> 8
 }
 
 func (d *Decoder) signed(length int) int32 {
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..6b4d387 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -156,6 +156,19 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+func (e *Encoder) signed(value int32) {
+	switch signedLength(value) {
+	case size8:
+		e.write(int8(value))
+	case size16:
+		e.write(int16(value))
+	case size24:
+		e.unsigned24(uint32(value))
+	default:
+		e.write(value)
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..ba99c47 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -14,6 +14,18 @@ func valueLength(value uint32) int {
 	return size32
 }
 
+// signedLength calculates how many bytes the two's complement form of the value needs
+func signedLength(value int32) int {
+	if value >= -0x80 && value < 0x80 {
+		return size8
+	} else if value >= -0x8000 && value < 0x8000 {
+		return size16
+	} else if value >= -0x800000 && value < 0x800000 {
+		return size24
+	}
+	return size32
+}
+
 /* from clause 20.2.1.3.2 Constructed Data */
 /* true if the tag is an opening tag */
 func isOpeningTag(x uint8) bool {
-- 
2.43.0


From 836c3f2814dd58a497ae98f117672cd6b92db660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:07 +0000
Subject: [PATCH 05/44] fix: decoders check value lengths against what was
 received

A length beyond the datagram or not allowed for the type made the decoder
allocate, panic or return made-up content instead of an error.
---
 encoding/appdata.go | 19 +++++++++++++++++--
 encoding/date.go    | 18 +++++++-----------
 encoding/decoder.go | 42 ++++++++++++++++++++++++++++++++++++++----
 encoding/string.go  | 12 ++++++++----
 4 files changed, 70 insertions(+), 21 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 8f7849b..66bd643 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -131,7 +131,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	switch tag {
 	case tagNull:
-		return null.Null{}, nil
+		return null.Null{}, d.Error()
 	case tagBool:
 		// Originally this was in C so non 0 values are considered
 		// true
@@ -142,10 +142,16 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 		return d.signed(len), d.Error()
 	case tagReal:
 		var x float32
+		if uint32(len) != realLen {
+			d.invalidLength(len)
+		}
 		d.real(&x)
 		return x, d.Error()
 	case tagDouble:
 		var x float64
+		if uint32(len) != doubleLen {
+			d.invalidLength(len)
+		}
 		d.double(&x)
 		return x, d.Error()
 	case tagOctetString:
@@ -171,6 +177,9 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 		d.time(&t, len)
 		return t, d.Error()
 	case tagObjectID:
+		if uint32(len) != objectIDLen {
+			d.invalidLength(len)
+		}
 		objType, objInstance := d.objectId()
 		return btypes.ObjectID{
 			Type:     btypes.ObjectType(objType),
@@ -181,6 +190,12 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	}
 }
 func (d *Decoder) AppData() (interface{}, error) {
-	tag, _, lenvalue := d.tagNumberAndValue()
+	tag, meta, lenvalue := d.tagNumberAndValue()
+	if d.err != nil {
+		return nil, d.err
+	}
+	if meta.isContextSpecific() {
+		return nil, fmt.Errorf("tag %d is not an application tag", tag)
+	}
 	return d.AppDataOfTag(tag, int(lenvalue))
 }
diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..873c2cf 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -43,17 +43,13 @@ func (e *Encoder) date(dt btypes.Date) {
 }
 
 func (d *Decoder) date(dt *btypes.Date, length int) {
-	if length <= 0 {
-		return
+	if uint32(length) != dateLen {
+		d.invalidLength(length)
 	}
-	data := make([]byte, length)
-	_, d.err = d.Read(data)
+	data := d.octets(length)
 	if d.err != nil {
 		return
 	}
-	if len(data) < 4 {
-		return
-	}
 
 	if dt.Year != btypes.UnspecifiedTime {
 		dt.Year = int(data[0]) + epochYear
@@ -75,11 +71,11 @@ func (e *Encoder) time(t btypes.Time) {
 	e.write(uint8(t.Millisecond / 10))
 }
 func (d *Decoder) time(t *btypes.Time, length int) {
-	if length <= 0 {
-		return
+	if uint32(length) != timeLen {
+		d.invalidLength(length)
 	}
-	data := make([]byte, length)
-	if _, d.err = d.Read(data); d.err != nil {
+	data := d.octets(length)
+	if d.err != nil {
 		return
 	}
 
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 97baecb..fb7f0ef 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,7 +3,9 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
+	"io"
 )
 
 // Decoder used
@@ -39,10 +41,36 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	if d.err != nil {
+		return d.err
+	}
+	if len(d.buff.Next(int(n))) < int(n) {
+		d.err = io.ErrUnexpectedEOF
+	}
 	return d.err
 }
 
+// invalidLength records that a value has a length that its type can't have
+func (d *Decoder) invalidLength(length int) {
+	if d.err == nil {
+		d.err = fmt.Errorf("invalid length %d", length)
+	}
+}
+
+// octets reads the given number of bytes, which must not be more than what is left
+func (d *Decoder) octets(length int) []byte {
+	if d.err != nil {
+		return nil
+	}
+	if length < 0 || length > d.len() {
+		d.invalidLength(length)
+		return nil
+	}
+	b := make([]byte, length)
+	copy(b, d.buff.Next(length))
+	return b
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -144,6 +172,7 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength(length)
 		return 0
 	}
 }
@@ -170,16 +199,21 @@ func (d *Decoder) signed(length int) int32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength(length)
 		return 0
 	}
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
-	if length <= 0 {
+	data := d.octets(length)
+	if d.err != nil {
+		return nil
+	}
+	/* at least the number of unused bits, and no more than a bit string can hold */
+	if length < 1 || length-1 > btypes.MaxBitStringBytes || data[0] > 7 || (length == 1 && data[0] != 0) {
+		d.invalidLength(length)
 		return nil
 	}
-	data := make([]uint8, length)
-	d.decode(data)
 	//refer to  https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacdcode.c#L672
 	bs := btypes.NewBitString(length - 1)
 	/* the lower 3 bits of the first byte contains the unused bits in the remain bytes and the remain bytes contain the bit masks*/
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..b6588ff 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -32,14 +32,19 @@ func decodeUCS2(s string) (string, error) {
 func (d *Decoder) string(s *string, len int) error {
 	var t stringType
 	d.decode(&t)
+	if d.err != nil {
+		return d.err
+	}
 	switch t {
 	case stringUTF8:
 	case characterUCS2:
 	default:
 		return fmt.Errorf("unsupported string format %d", t)
 	}
-	b := make([]byte, len)
-	d.decode(b)
+	b := d.octets(len)
+	if d.err != nil {
+		return d.err
+	}
 
 	if t == characterUCS2 {
 		out, err := decodeUCS2(string(b))
@@ -58,6 +63,5 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
-	*b = make([]byte, len)
-	d.decode(b)
+	*b = d.octets(len)
 }
-- 
2.43.0


From 2a2a87dc2419de057add9672817df77cf5df86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:36 +0000
Subject: [PATCH 06/44] fix: dates are decoded with the standard's base year

The year octet counts from 1900, an unspecified year is 255 and not a
year, and odd days of the month are 33, even ones 34.
---
 encoding/date.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 873c2cf..2e3866e 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -3,9 +3,9 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 // epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
+// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1900
 // limit
-const epochYear = 1990
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
@@ -23,11 +23,11 @@ func IsLastDayOfMonth(day int) bool {
 }
 
 func IsEvenDayOfMonth(day int) bool {
-	return day == 33
+	return day == 34
 }
 
 func IsOddDayOfMonth(day int) bool {
-	return day == 32
+	return day == 33
 }
 
 func (e *Encoder) date(dt btypes.Date) {
@@ -51,7 +51,7 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
-	if dt.Year != btypes.UnspecifiedTime {
+	if data[0] != notDefined {
 		dt.Year = int(data[0]) + epochYear
 	} else {
 		dt.Year = int(data[0])
-- 
2.43.0


From a557efc65f7db195491a8810a3b4719d6bc96ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 07/44] fix: an object identifier that does not fit is refused

The type or instance was cut to its bits and the request sent for another
object.
---
 encoding/appdata.go | 1 +
 encoding/encoder.go | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 66bd643..6c50a97 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -117,6 +117,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	case btypes.ObjectID:
 		e.tag(tagInfo{ID: tagObjectID, Context: appLayerContext, Value: objectIDLen})
 		e.objectId(val.Type, val.Instance)
+		return e.Error()
 	case null.Null:
 		e.tag(tagInfo{ID: tagNull, Context: appLayerContext})
 	default:
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 6b4d387..e6beb66 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -117,6 +118,12 @@ func (e *Encoder) tag(tg tagInfo) {
 /* from clause 20.2.14 Encoding of an Object Identifier Value
 returns the number of apdu bytes consumed */
 func (e *Encoder) objectId(objectType btypes.ObjectType, instance btypes.ObjectInstance) {
+	if objectType > MaxObject || instance > MaxInstance {
+		if e.err == nil {
+			e.err = fmt.Errorf("object type %d instance %d is out of range", uint16(objectType), instance)
+		}
+		return
+	}
 	var value uint32
 	value = ((uint32(objectType) & MaxObject) << InstanceBits) | (uint32(instance) & MaxInstance)
 	e.write(value)
-- 
2.43.0


From 23411101bff348d1c1e446aab989713efebe2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 08/44] fix: router announcements of any length and vendor
 message 0x80 are decoded

The list of networks was read once too often or not at all, so that a
message naming one or several networks lost or invented some, and the
vendor identifier of the first proprietary message type was skipped.
---
 encoding/npdu.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..1887a6f 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -66,8 +66,7 @@ func (d *Decoder) Address(a *btypes.Address) {
 	d.decode(&a.Net) //decode the network address
 	d.decode(&a.Len)
 	// Make space for address
-	a.Adr = make([]uint8, a.Len) //decode the device hardware mac addr
-	d.decode(a.Adr)
+	a.Adr = d.octets(int(a.Len)) //decode the device hardware mac addr
 
 }
 
@@ -104,7 +103,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
@@ -116,13 +115,15 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 			var nets []btypes.Address
 			d.decode(&n.Source.Net) //decode the first network
 			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
-				d.decode(&n.Source.Net)
-				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
-					}
+			for d.err == nil && d.len() > 0 {
+				var next btypes.Address
+				d.decode(&next.Net)
+				known := false
+				for _, adr := range nets { //make sure that a network is only added once
+					known = known || adr.Net == next.Net
+				}
+				if !known {
+					nets = append(nets, next)
 				}
 			}
 			addr = nets
-- 
2.43.0


From 4c24d5eccf6892dddd08829786243220ef467f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:42 +0000
Subject: [PATCH 09/44] fix: error answers without brackets give the class and
 code sent

They were decoded to the tag octets instead of the values, and a cut error
answer was taken for a complete one.
---
 encoding/apdu.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..87c8125 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -112,9 +112,9 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
 	d.decode(&a.Service)
 
-	_, meta := d.tagNumber()
+	_, meta, value := d.tagNumberAndValue()
 	if meta.isOpening() {
-		_, _, value := d.tagNumberAndValue()
+		_, _, value = d.tagNumberAndValue()
 		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(value)))
 		_, _, value = d.tagNumberAndValue()
 		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
@@ -123,18 +123,12 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 			return &ErrorWrongTagType{ClosingTag}
 		}
 	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
-
+		// the first tag is already that of the class
+		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(value)))
+		_, _, value = d.tagNumberAndValue()
+		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
 	}
-	return nil
+	return d.Error()
 }
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
-- 
2.43.0


From b5a1194f88eb0274d27b06c311b876fe546a03f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 10/44] fix: segmented acknowledgements have sequence and
 window, brackets are told apart

A closing tag also counted as an opening one, and an application tag with
the same low bits as either.
---
 encoding/apdu.go    | 8 ++++++++
 encoding/general.go | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 87c8125..ae21e32 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -52,6 +52,10 @@ func (e *Encoder) apduUnconfirmed(a btypes.APDU) {
 
 func (e *Encoder) apduComplexAck(a btypes.APDU) {
 	e.write(a.InvokeId)
+	if a.SegmentedMessage {
+		e.write(a.Sequence)
+		e.write(a.WindowNumber)
+	}
 	e.write(a.Service)
 }
 
@@ -133,6 +137,10 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
 	d.decode(&a.InvokeId)
+	if a.SegmentedMessage {
+		d.decode(&a.Sequence)
+		d.decode(&a.WindowNumber)
+	}
 	d.decode(&a.Service)
 	return d.Error()
 }
diff --git a/encoding/general.go b/encoding/general.go
index ba99c47..cc4144a 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -54,7 +54,7 @@ func (t *tagMeta) setClosing() {
 }
 
 func (t *tagMeta) isClosing() bool {
-	return ((*t & closingMask) == closingMask)
+	return ((*t & 0x0F) == contextSpecificBit|closingMask)
 }
 
 func (t *tagMeta) setOpening() {
@@ -63,7 +63,7 @@ func (t *tagMeta) setOpening() {
 }
 
 func (t *tagMeta) isOpening() bool {
-	return ((*t & openingMask) == openingMask)
+	return ((*t & 0x0F) == contextSpecificBit|openingMask)
 }
 
 func (t *tagMeta) Clear() {
-- 
2.43.0


From fc33ff3ec3f7eef1d874772366d148d00ae7db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 11/44] fix: multiple read answers that are cut or malformed
 are errors

The decoder looped for ever on a wrong closing tag or a cut list, dropped
or invented values for context tags it does not know and listed objects
twice. The encoder wrote the value untagged and twice.
---
 encoding/context_tag.go     |  8 ++---
 encoding/readmultipleack.go | 70 ++++++++++++++++---------------------
 2 files changed, 34 insertions(+), 44 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..668c71e 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -3,13 +3,11 @@ package encoding
 import "github.com/NubeDev/bacnet/btypes"
 
 /* refer to https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacapp.c#L583 */
-/* returns the fixed tag type for certain context tagged properties */
+/* returns the fixed tag type for certain context tagged properties, maxTag if there is none */
 func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
-	tag := tagNumber
+	tag := maxTag
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_ACTUAL_SHED_LEVEL, btypes.PROP_REQUESTED_SHED_LEVEL, btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..083941f 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -54,10 +54,8 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 		tag++
 		openedTag := tag
 		e.openingTag(openedTag)
-		e.write(prop.Data)
+		e.AppData(prop.Data, false)
 		e.closingTag(openedTag)
-
-		e.write(prop.Data)
 	}
 	return e.Error()
 }
@@ -106,6 +104,8 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			return &ErrorIncorrectTag{Expected: 0, Given: tag}
 		} else if !meta.isContextSpecific() {
 			return &ErrorWrongTagType{ContextTag}
+		} else if length != objectIDLen {
+			return fmt.Errorf("object identifier of length %d", length)
 		}
 		obj.ID.Type, obj.ID.Instance = d.objectId()
 
@@ -133,9 +133,7 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 
 			// Tag 3 - (Optional) Array Length
 			tag, meta = d.tagNumber()
-			if tag == 2 {
-				continue
-			} else if tag == 3 {
+			if tag == 3 {
 				if !meta.isContextSpecific() {
 					return &ErrorWrongTagType{ContextTag}
 				}
@@ -151,44 +149,38 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			if tag == 4 && meta.isOpening() {
 				var array []interface{}
 				tag, meta = d.tagNumber()
-				if d.err != nil {
-					return d.err
-				}
-				for {
+				for d.err == nil && !(meta.isClosing() && tag == 4) {
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
-							_ = d.UnreadByte()
+							return &ErrorIncorrectTag{Expected: 4, Given: tag}
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
-								for {
-									tag, meta, length = d.tagNumberAndValue()
-									if meta.isClosing() && tag == btypes.TimeStampDatetime {
-										break
-									} else if tag == tagDate {
-										d.date(&dt.Date, int(length))
-									} else if tag == tagTime {
-										d.time(&dt.Time, int(length))
-									} else if length > 0 {
-										d.Skip(length)
-									}
+								if tag, meta, length = d.tagNumberAndValue(); tag != tagDate || meta.isContextSpecific() {
+									return &ErrorIncorrectTag{Expected: tagDate, Given: tag}
+								}
+								d.date(&dt.Date, int(length))
+								if tag, meta, length = d.tagNumberAndValue(); tag != tagTime || meta.isContextSpecific() {
+									return &ErrorIncorrectTag{Expected: tagTime, Given: tag}
+								}
+								d.time(&dt.Time, int(length))
+								if tag, meta = d.tagNumber(); tag != btypes.TimeStampDatetime || !meta.isClosing() {
+									return &ErrorWrongTagType{ClosingTag}
 								}
 								array = append(array, dt)
+							} else {
+								return fmt.Errorf("unsupported constructed value with tag %d", tag)
 							}
 						} else {
 							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
 							lenValue := d.value(meta)
+							context := tag
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
-								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
-								}
+								return fmt.Errorf("unsupported context tag %d", context)
+							} else if tag == tagBool {
+								// unlike an application boolean it has a content octet
+								array = append(array, d.unsigned(int(lenValue)) != 0)
 							} else {
 								data, err := d.AppDataOfTag(tag, int(lenValue))
 								if err != nil {
@@ -205,12 +197,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 						array = append(array, data)
 					}
 					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
+				}
+				if d.err != nil {
+					return d.err
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
@@ -228,14 +217,17 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 					return err
 				}
 				tag, meta = d.tagNumber()
-				if tag == 5 && meta.isClosing() {
-					//
+				if tag != 5 || !meta.isClosing() {
+					return &ErrorWrongTagType{ClosingTag}
 				}
 				return fmt.Errorf("class %d code %d", class, code)
 			} else {
 				return &ErrorIncorrectTag{Expected: 4, Given: tag}
 			}
 		}
+		if d.err == nil && (tag != 1 || !meta.isClosing()) {
+			return &ErrorWrongTagType{ClosingTag}
+		}
 
 		*objects = append(*objects, obj)
 	}
-- 
2.43.0


From 43a5fbc615cdfe3827ac68ec9ae12aeaea6792b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:08 +0000
Subject: [PATCH 12/44] fix: read answers end with their closing tag or are an
 error

The last octet was dropped unseen, so that a cut list was taken for a
complete one and values after the list for part of it. The encoder closed
the list with another tag than it opened it with.
---
 encoding/readprop.go | 47 ++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..197ad23 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -69,7 +69,6 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
 	e.AppData(prop.Data, false)
 	e.closingTag(tagID)
@@ -83,7 +82,7 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	}
 
 	// Tag 0: Object ID
-	tag, meta := d.tagNumber()
+	tag, meta, idLen := d.tagNumberAndValue()
 
 	var expectedTag uint8
 	if tag != expectedTag {
@@ -96,6 +95,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if !meta.isContextSpecific() {
 		return fmt.Errorf("tag %d should be context specific. %x", tag, meta)
 	}
+	if idLen != objectIDLen {
+		return fmt.Errorf("object identifier of length %d", idLen)
+	}
 	objectType, instance = d.objectId()
 	data.Object.ID.Type = objectType
 	data.Object.ID.Instance = instance
@@ -105,6 +107,9 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{expectedTag, tag}
 	}
+	if !meta.isContextSpecific() {
+		return &ErrorWrongTagType{ContextTag}
+	}
 	expectedTag++
 
 	lenValue := d.value(meta)
@@ -112,12 +117,13 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 	var prop btypes.Property
 	prop.Type = btypes.PropertyType(d.enumerated(int(lenValue)))
 
-	if d.len() != 0 {
+	more := d.len() != 0
+	if more {
 		tag, meta = d.tagNumber()
 	}
 
 	// Check to see if we still have bytes to read.
-	if d.buff.Len() != 0 || tag >= 2 {
+	if more && d.err == nil {
 		// If we do then that means we are reading the optional argument,
 		// arra length
 
@@ -128,9 +134,10 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 		var openTag uint8
 		// I tried to not use magic numbers but it doesn't look like it can be avoided
 		// If the attag we receive is a tag of 2 then set the value
-		if tag == 2 {
+		if tag == 2 && meta.isContextSpecific() {
 			prop.ArrayIndex = d.unsigned(int(lenValue))
-			if d.len() > 0 {
+			more = d.len() > 0
+			if more {
 				openTag, meta = d.tagNumber()
 			}
 		} else {
@@ -138,15 +145,23 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 			prop.ArrayIndex = ArrayAll
 		}
 
-		if openTag == 3 {
-			var err error
-			// We subtract one to ignore the closing tag.
+		if openTag == 3 && meta.isOpening() {
 			datalist := make([]interface{}, 0)
 
-			// There is a closing tag of size 1 byte that we ignore which is why we are
-			// looping until the length is greater than 1
-			for i := 0; d.buff.Len() > 1; i++ {
-				data, err := d.AppData()
+			// the list ends with the closing tag, which is also the end of the message
+			for {
+				tag, meta, lenValue = d.tagNumberAndValue()
+				if d.err != nil {
+					return d.err
+				}
+				if meta.isClosing() && tag == openTag && d.len() == 0 {
+					break
+				}
+				if meta.isContextSpecific() {
+					d.err = fmt.Errorf("unexpected context tag %d", tag)
+					return d.err
+				}
+				data, err := d.AppDataOfTag(tag, int(lenValue))
 				if err != nil {
 					d.err = err
 					return err
@@ -159,10 +174,8 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 			if len(datalist) == 1 {
 				prop.Data = datalist[0]
 			}
-			if err != nil {
-				d.err = err
-				return err
-			}
+		} else if more && d.err == nil {
+			d.err = &ErrorIncorrectTag{3, openTag}
 		}
 	} else {
 		prop.ArrayIndex = ArrayAll
-- 
2.43.0


From edb3cc31feef7133cec1a6ffea7212e63a0e7af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:05 +0000
Subject: [PATCH 13/44] fix: requests without object or property or out of
 range are refused

A single read ignored the refusal and sent what it had, a multiple read or
write did not look, and a request without a property panicked.
---
 encoding/encoder.go  |  7 +++++++
 encoding/readprop.go |  6 ++----
 encoding/validate.go | 16 ++++++++++++++++
 3 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index e6beb66..2551030 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -178,7 +178,14 @@ func (e *Encoder) signed(value int32) {
 
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
+	if len(objects) == 0 {
+		e.err = fmt.Errorf("no object given")
+	}
 	for _, obj := range objects {
+		if err := isValidRequest(obj); err != nil {
+			e.err = err
+			return err
+		}
 		tag = 0
 		e.contextObjectID(tag, obj.ID.Type, obj.ID.Instance)
 		// Tag 1 - Opening Tag
diff --git a/encoding/readprop.go b/encoding/readprop.go
index 197ad23..0cb8bb3 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -8,10 +8,8 @@ import (
 
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
-	if err := isValidObjectType(data.Object.ID.Type); err != nil {
-		return 0, err
-	}
-	if err := isValidPropertyType(uint32(data.Object.Properties[0].Type)); err != nil {
+	if err := isValidRequest(data.Object); err != nil {
+		e.err = err
 		return 0, err
 	}
 
diff --git a/encoding/validate.go b/encoding/validate.go
index dad8923..18debf6 100644
--- a/encoding/validate.go
+++ b/encoding/validate.go
@@ -13,6 +13,22 @@ func isValidObjectType(idType btypes.ObjectType) error {
 	return nil
 }
 
+// isValidRequest checks that an object names something that can be asked for
+func isValidRequest(obj btypes.Object) error {
+	if err := isValidObjectType(obj.ID.Type); err != nil {
+		return err
+	}
+	if len(obj.Properties) == 0 {
+		return fmt.Errorf("no property given for object %v", obj.ID)
+	}
+	for _, prop := range obj.Properties {
+		if err := isValidPropertyType(uint32(prop.Type)); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func isValidPropertyType(propType uint32) error {
 	if propType > MaxPropertyID {
 		return fmt.Errorf("Object btypes is %d which must be less then %d", propType, MaxPropertyID)
-- 
2.43.0


From f112ab156c66bb6e1b692120fccae9978de2d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:07 +0000
Subject: [PATCH 14/44] fix: a multiple write has its priority under tag 3 and
 enumerated binary values

The priority was sent under the tag of the value, and the present value of
a binary point as unsigned, which the single write does correctly.
---
 encoding/encoder.go   |  9 ++++++---
 encoding/writeprop.go | 11 +++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 2551030..b76e44f 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -191,14 +191,14 @@ func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 		// Tag 1 - Opening Tag
 		tag = 1
 		e.openingTag(tag)
-		e.properties(obj.Properties, write)
+		e.properties(obj.ID, obj.Properties, write)
 		// Tag 1 - Closing Tag
 		e.closingTag(tag)
 	}
 	return nil
 }
 
-func (e *Encoder) properties(properties []btypes.Property, write bool) error {
+func (e *Encoder) properties(id btypes.ObjectID, properties []btypes.Property, write bool) error {
 	// for each property
 	var tag uint8
 	for _, prop := range properties {
@@ -216,10 +216,13 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			// Tag 2 - Opening Tag
 			tag = 2
 			e.openingTag(tag)
-			e.AppData(prop.Data, false)
+			_, number := prop.Data.(uint32)
+			e.AppData(prop.Data, number && isBOBV(id.Type, prop.Type))
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
 			if prop.Priority != btypes.Normal {
+				// Tag 3 - Optional priority
+				tag = 3
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
 		}
diff --git a/encoding/writeprop.go b/encoding/writeprop.go
index b9a83b2..af52b69 100644
--- a/encoding/writeprop.go
+++ b/encoding/writeprop.go
@@ -41,13 +41,12 @@ func (e *Encoder) WriteProperty(invokeID uint8, data btypes.PropertyData) error
 
 //pointTypeBOBV if point type is bv or bo then we need to set the data type to enum
 func pointTypeBOBV(data btypes.PropertyData) (isBool bool) {
-	pointType := data.Object.ID.Type
-	property := 0
 	if len(data.Object.Properties) > 0 {
-		property = int(data.Object.Properties[0].Type)
-	}
-	if (pointType == btypes.TypeBinaryValue || pointType == btypes.TypeBinaryOutput) && property == 85 {
-		return true
+		return isBOBV(data.Object.ID.Type, data.Object.Properties[0].Type)
 	}
 	return
 }
+
+func isBOBV(pointType btypes.ObjectType, property btypes.PropertyType) bool {
+	return (pointType == btypes.TypeBinaryValue || pointType == btypes.TypeBinaryOutput) && property == btypes.PropPresentValue
+}
-- 
2.43.0


From 997363f1d68134ae95098d2437356bd38a3cb4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 15/44] fix: a search up to the largest identifier is sent with
 its limits

And a received search needs context tags.
---
 encoding/whois.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/encoding/whois.go b/encoding/whois.go
index 1fa11cb..6a500b4 100644
--- a/encoding/whois.go
+++ b/encoding/whois.go
@@ -14,7 +14,7 @@ func (e *Encoder) WhoIs(low, high int32) error {
 
 	// The range is optional. A scan for all objects is done when either low/high
 	// are negative or when we are scanning above the max instance
-	if low >= 0 && high >= 0 && low < btypes.MaxInstance && high <
+	if low >= 0 && high >= 0 && low <= btypes.MaxInstance && high <=
 		btypes.MaxInstance {
 		// Tag 0
 		e.contextUnsigned(0, uint32(low))
@@ -34,18 +34,22 @@ func (d *Decoder) WhoIs(low, high *int32) error {
 	}
 	// Tag 0 - Low Value
 	var expectedTag uint8
-	tag, _, value := d.tagNumberAndValue()
+	tag, meta, value := d.tagNumberAndValue()
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{Expected: expectedTag, Given: tag}
+	} else if !meta.isContextSpecific() {
+		return &ErrorWrongTagType{ContextTag}
 	}
 	l := d.unsigned(int(value))
 	*low = int32(l)
 
 	// Tag 1 - High Value
 	expectedTag = 1
-	tag, _, value = d.tagNumberAndValue()
+	tag, meta, value = d.tagNumberAndValue()
 	if tag != expectedTag {
 		return &ErrorIncorrectTag{Expected: expectedTag, Given: tag}
+	} else if !meta.isContextSpecific() {
+		return &ErrorWrongTagType{ContextTag}
 	}
 	h := d.unsigned(int(value))
 	*high = int32(h)
-- 
2.43.0


From 1725c7c8ca94044c3ff5013d9b107f89b39b62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 16/44] fix: an announcement with missing or wrong fields is an
 error

Errors of all fields but the first were dropped and the field left zero.
---
 encoding/iam.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..4ca05f8 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -19,23 +19,36 @@ func (e *Encoder) IAm(id btypes.IAm) error {
 	return e.Error()
 }
 
+// appDataOfType decodes a value that must have the given application tag
+func (d *Decoder) appDataOfType(expected uint8) (interface{}, error) {
+	tag, meta, length := d.tagNumberAndValue()
+	if d.err != nil {
+		return nil, d.err
+	}
+	if tag != expected || meta.isContextSpecific() {
+		d.err = &ErrorIncorrectTag{Expected: expected, Given: tag}
+		return nil, d.err
+	}
+	return d.AppDataOfTag(tag, int(length))
+}
+
 func (d *Decoder) IAm(id *btypes.IAm) error {
-	objID, err := d.AppData()
+	objID, err := d.appDataOfType(tagObjectID)
 	if err != nil {
 		return err
 	}
 	if i, ok := objID.(btypes.ObjectID); ok {
 		id.ID = i
 	}
-	maxapdu, _ := d.AppData()
+	maxapdu, _ := d.appDataOfType(tagUint)
 	if m, ok := maxapdu.(uint32); ok {
 		id.MaxApdu = m
 	}
-	segmentation, _ := d.AppData()
+	segmentation, _ := d.appDataOfType(tagEnumerated)
 	if m, ok := segmentation.(uint32); ok {
 		id.Segmentation = btypes.Enumerated(m)
 	}
-	vendor, err := d.AppData()
+	vendor, err := d.appDataOfType(tagUint)
 	if v, ok := vendor.(uint32); ok {
 		id.Vendor = v
 	}
-- 
2.43.0


From f515b1bfc426b961b4efe3473a9ab6260073c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 17/44] fix: an application tag that claims to be a bracket is
 an error

---
 encoding/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index fb7f0ef..0d28b42 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -120,6 +120,9 @@ func (d *Decoder) value(meta tagMeta) (value uint32) {
 		}
 	} else if meta.isOpening() || meta.isClosing() {
 		return 0
+	} else if meta&0x07 > 5 {
+		// neither a length nor, without the context class, a bracket
+		d.invalidLength(int(meta & 0x07))
 	}
 	return uint32(meta & 0x07)
 }
-- 
2.43.0


From b4e895d2b537c75cf4dee03dddbba9fa1d5d8dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:43 +0000
Subject: [PATCH 18/44] fix: the content of a network-layer message is not
 taken for an answer

---
 device.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/device.go b/device.go
index 9413d79..a934048 100644
--- a/device.go
+++ b/device.go
@@ -151,13 +151,12 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			c.log.Debug("Ignored Network Layer Message")
 			if npdu.NetworkLayerMessageType == ndpu.NetworkIs {
 				c.utsm.Publish(int(npdu.Source.Net), npdu)
-				//return
 			}
 			if npdu.NetworkLayerMessageType == ndpu.IamRouterToNetwork {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
-				//return
 			}
-
+			// what follows is no APDU
+			return
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
-- 
2.43.0


From 76532b5b061dc0f9459cdb64d039ab833f378c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 19/44] fix: a request of another party does not complete a
 transaction

---
 device.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/device.go b/device.go
index a934048..99fa7ff 100644
--- a/device.go
+++ b/device.go
@@ -213,11 +213,8 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// a question of somebody else, whose invoke id has nothing to do with ours
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From b25df575fdb934f3e5ee975106c74f59a30ac19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:07 +0000
Subject: [PATCH 20/44] fix: a forwarded message is read behind its header and
 comes from its originator

---
 device.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index 99fa7ff..d5f08e8 100644
--- a/device.go
+++ b/device.go
@@ -138,6 +138,18 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 		c.log.Error(err)
 		return
 	}
+	if header.Type != btypes.BVLCTypeBacnetIP {
+		return
+	}
+	if header.Function == btypes.BacFuncForwardedNPDU {
+		// The message comes from the device that is named in front of it
+		if len(b) < forwardHeaderLength {
+			return
+		}
+		mac := b[mtuHeaderLength:forwardHeaderLength]
+		src = &btypes.Address{Mac: append([]uint8(nil), mac...), MacLen: uint8(len(mac))}
+		dec = encoding.NewDecoder(b[forwardHeaderLength:])
+	}
 
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
@@ -226,14 +238,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
 		}
 	}
-
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From 317f72853fa67b835e0dbef8fe4fec3201c48678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:09 +0000
Subject: [PATCH 21/44] fix: the receive buffer has room for the largest
 message

---
 device.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index d5f08e8..0e3eb2d 100644
--- a/device.go
+++ b/device.go
@@ -19,6 +19,10 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardHeaderLength = 10
 
+// maxHeaderLength is the size of the headers in front of an apdu: the largest
+// link header and a network header with a source and a destination
+const maxHeaderLength = forwardHeaderLength + 26
+
 type Client interface {
 	io.Closer
 	ClientClose(closeLogs bool) error
@@ -107,7 +111,8 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 			utsm.DefaultSubscriberLastReceivedTimeout(time.Second*time.Duration(2)),
 		),
 		readBufferPool: sync.Pool{New: func() interface{} {
-			return make([]byte, maxPDU)
+			// requests say that answers of up to MaxAPDU are accepted
+			return make([]byte, max(int(maxPDU), btypes.MaxAPDU)+maxHeaderLength)
 		}},
 		log: l,
 	}
-- 
2.43.0


From cd627bd9cd9749c45f0ab0db9fb30ce5e29ded7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 22/44] fix: a client is built as configured, or an error says
 why not

---
 device.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/device.go b/device.go
index 0e3eb2d..2c85be5 100644
--- a/device.go
+++ b/device.go
@@ -58,44 +58,46 @@ type ClientBuilder struct {
 // NewClient creates a new client with the given interface and
 func NewClient(cb *ClientBuilder) (Client, error) {
 	var err error
-	var dataLink datalink.DataLink
+	dataLink := cb.DataLink
 	iface := cb.Interface
 	ip := cb.Ip
 	port := cb.Port
 	maxPDU := cb.MaxPDU
-	//check ip
-	ok := validation.ValidIP(ip)
-	if !ok {
-
-	}
 	//check port
 	if port == 0 {
 		port = datalink.DefaultPort
 	}
-	ok = validation.ValidPort(port)
+	ok := validation.ValidPort(port)
 	if !ok {
-
+		return nil, fmt.Errorf("invalid port %d", port)
 	}
 	//check adpu
 	if maxPDU == 0 {
 		maxPDU = btypes.MaxAPDU
 	}
 	//build datalink
-	if iface != "" {
+	if dataLink != nil {
+		// use the given one
+	} else if iface != "" {
 		dataLink, err = datalink.NewUDPDataLink(iface, port)
 		if err != nil {
-			//log.Fatal(err)
+			return nil, err
 		}
 	} else {
+		//check ip
+		ok = validation.ValidIP(ip)
+		if !ok {
+			return nil, fmt.Errorf("invalid ip %q", ip)
+		}
 		//check subnet
 		sub := cb.SubnetCIDR
 		ok = validation.ValidCIDR(ip, sub)
 		if !ok {
-
+			return nil, fmt.Errorf("invalid subnet %s/%d", ip, sub)
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
-			//log.Fatal(err)
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 702a9cd9ebf2a215ae3bf9c3f26b4834c3cf50a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:30 +0000
Subject: [PATCH 23/44] fix: the data link is IPv4 only and refuses other
 addresses

---
 datalink/udp.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index c4f0a72..314c3fc 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,13 +67,21 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
+	if len(ipNet.IP) != net.IPv4len {
+		return nil, fmt.Errorf("%s is not an IPv4 address", ipAddr)
+	}
+
 	broadcast := net.IP(make([]byte, 4))
 	for i := range broadcast {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
 	}
 
-	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
-	conn, err := net.ListenUDP("udp", udp)
+	udp, err := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	if err != nil {
+		return nil, err
+	}
+	// IPv4 only: datagrams from IPv6 addresses can't be handled
+	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3b735b7768b46ab960393656b2e03b8f7277a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:31 +0000
Subject: [PATCH 24/44] fix: closing a client with its log closes the data
 link, too

---
 device.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 2c85be5..46d6f3f 100644
--- a/device.go
+++ b/device.go
@@ -290,12 +290,13 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 }
 
 func (c *client) ClientClose(closeLogs bool) error {
+	err := c.Close()
 	if closeLogs {
 		if f, ok := c.log.Out.(io.Closer); ok {
 			return f.Close()
 		}
 	}
-	return c.Close()
+	return err
 }
 
 // Close free resources for the client. Always call this function when using NewClient
-- 
2.43.0


From 2e046be4bd03936e3a1dcf2ca8d0527fa22fa6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 25/44] fix: every destination behind a router is sent with the
 length of its address

---
 btypes/address.go | 4 ++--
 iam.go            | 1 +
 writemulti.go     | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..1818610 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -24,10 +24,10 @@ func (a *Address) IsBroadcast() bool {
 	return false
 }
 
-//SetLength if device is of type ms-tp then set address len to 1
+//SetLength if device has an address behind a router (1 byte for ms-tp) then set its len
 func (a *Address) SetLength() {
 	if len(a.Adr) > 0 {
-		a.Len = 1
+		a.Len = uint8(len(a.Adr))
 	}
 	return
 }
diff --git a/iam.go b/iam.go
index aa0a677..661ac64 100644
--- a/iam.go
+++ b/iam.go
@@ -10,6 +10,7 @@ not working
 */
 
 func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
+	dest.SetLength()
 	npdu := &btypes.NPDU{
 		Version:     btypes.ProtocolVersion,
 		Destination: &dest,
diff --git a/writemulti.go b/writemulti.go
index e65a189..7124807 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -17,7 +17,7 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 		return fmt.Errorf("unable to get an transaction id: %v", err)
 	}
 	defer c.tsm.Put(id)
-
+	dev.Addr.SetLength()
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &dev.Addr,
-- 
2.43.0


From d0cadc72fb3e40fe36a3782287496db93ec35052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:02 +0000
Subject: [PATCH 26/44] fix: only the acknowledgement of the service completes
 a request

---
 device.go     | 11 +++++++++++
 readmulti.go  |  3 +++
 readprop.go   |  7 +++++++
 writemulti.go |  2 +-
 writeprop.go  |  3 +--
 5 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/device.go b/device.go
index 46d6f3f..ca869e6 100644
--- a/device.go
+++ b/device.go
@@ -247,6 +247,17 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 	}
 }
 
+// checkAck returns an error if the apdu is not the complete acknowledgement of the service
+func checkAck(apdu *btypes.APDU, dataType btypes.PDUType, service btypes.ServiceConfirmed) error {
+	if apdu.DataType != dataType || apdu.Service != service {
+		return fmt.Errorf("received type %#x for service %d instead of an acknowledgement of service %d", uint8(apdu.DataType), apdu.Service, service)
+	}
+	if apdu.SegmentedMessage {
+		return fmt.Errorf("received a segmented acknowledgement")
+	}
+	return nil
+}
+
 type SetBroadcastType struct { //used to override the header.Function
 	Set     bool
 	BacFunc btypes.BacFunc
diff --git a/readmulti.go b/readmulti.go
index 67377e1..ad5547b 100644
--- a/readmulti.go
+++ b/readmulti.go
@@ -98,6 +98,9 @@ func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btype
 		err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 		return out, err
 	}
+	if err = checkAck(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadPropMultiple); err != nil {
+		return out, err
+	}
 	err = dec.ReadMultiplePropertyAck(&out)
 	if err != nil {
 		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
diff --git a/readprop.go b/readprop.go
index 73f1b57..1dbdd94 100644
--- a/readprop.go
+++ b/readprop.go
@@ -68,9 +68,16 @@ func (c *client) ReadProperty(device btypes.Device, rp btypes.PropertyData) (bty
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
+		if err = checkAck(&apdu, btypes.ComplexAck, btypes.ServiceConfirmedReadProperty); err != nil {
+			continue
+		}
 		if err = dec.ReadProperty(&out); err != nil {
 			continue
 		}
+		if out.Object.Properties[0].Data == nil {
+			err = fmt.Errorf("received an acknowledgement without a value")
+			continue
+		}
 		return out, dec.Error()
 	}
 	return btypes.PropertyData{}, err
diff --git a/writemulti.go b/writemulti.go
index 7124807..66fcb7f 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -82,5 +82,5 @@ func (c *client) sendWriteMultipleProperty(id int, dev btypes.Device, npdu *btyp
 	if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
 		return fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 	}
-	return nil
+	return checkAck(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWritePropMultiple)
 }
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..bfe5a08 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -66,8 +66,7 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 			err = fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
 			continue
 		}
-
-		return err
+		err = checkAck(&apdu, btypes.SimpleAck, btypes.ServiceConfirmedWriteProperty)
 	}
 	return err
 }
-- 
2.43.0


From d765603fad2515d1cff34ba15d154b759dfe5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 27/44] fix: an announcement that cannot be encoded is not sent

---
 iam.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iam.go b/iam.go
index 661ac64..05623b8 100644
--- a/iam.go
+++ b/iam.go
@@ -23,7 +23,10 @@ func (c *client) IAm(dest btypes.Address, iam btypes.IAm) error {
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.IAm(iam)
-	_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+	err := enc.IAm(iam)
+	if err != nil {
+		return err
+	}
+	_, err = c.Send(dest, npdu, enc.Bytes(), nil)
 	return err
 }
-- 
2.43.0


From 8f2cd8ceaede4cf26c0aecebc9e0871828fd93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 28/44] fix: searches are sent once their answers are received,
 and not from a racing goroutine

---
 utsm/subscriber.go |  7 +++++++
 whatnetwork.go     | 16 ++++++++--------
 whois.go           | 16 ++++++++--------
 whoisrouter.go     | 16 ++++++++--------
 4 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index 54a7724..e18607d 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -42,6 +42,13 @@ func (s *subscriber) LastReceivedTimeout(d time.Duration) SubscriberOption {
 	}
 }
 
+// Subscribed calls f as soon as the subscriber receives what is published.
+func Subscribed(f func()) SubscriberOption {
+	return func(*subscriber) {
+		f()
+	}
+}
+
 // getTimeout returns the expiration time based on when we last received a message
 func (s *subscriber) getTimeout() time.Duration {
 	s.mutex.Lock()
diff --git a/whatnetwork.go b/whatnetwork.go
index 28b5f5c..8cd044c 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -32,18 +33,17 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 		HopCount:       btypes.DefaultHopCount,
 	}
 	enc.NPDU(npdu)
-	// Run in parallel
-	errChan := make(chan error)
+	// Send when answers are received
+	var sendErr error
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := func() {
+		_, sendErr = c.Send(dest, npdu, enc.Bytes(), broadcast)
+	}
+	values, err := c.utsm.Subscribe(1, 65534, utsm.Subscribed(send)) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-	err = <-errChan
+	err = sendErr
 	if err != nil {
 
 	}
diff --git a/whois.go b/whois.go
index 95888b1..338081e 100644
--- a/whois.go
+++ b/whois.go
@@ -4,6 +4,7 @@ import "C"
 import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 type WhoIsOpts struct {
@@ -57,17 +58,16 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		start = low
 		end = high
 	}
-	// Run in parallel
-	errChan := make(chan error)
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(start, end)
+	// Send when answers are received
+	var sendErr error
+	send := func() {
+		_, sendErr = c.Send(dest, npdu, enc.Bytes(), nil)
+	}
+	values, err := c.utsm.Subscribe(start, end, utsm.Subscribed(send))
 	if err != nil {
 		return nil, err
 	}
-	err = <-errChan
+	err = sendErr
 	if err != nil {
 		return nil, err
 	}
diff --git a/whoisrouter.go b/whoisrouter.go
index 3f225c2..078ffd2 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -27,18 +28,17 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 		HopCount:       btypes.DefaultHopCount,
 	}
 	enc.NPDU(npdu)
-	// Run in parallel
-	errChan := make(chan error)
+	// Send when answers are received
+	var sendErr error
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := func() {
+		_, sendErr = c.Send(dest, npdu, enc.Bytes(), broadcast)
+	}
+	values, err := c.utsm.Subscribe(1, 65534, utsm.Subscribed(send)) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-	err = <-errChan
+	err = sendErr
 	if err != nil {
 
 	}
-- 
2.43.0


From 57ea0dce582e12bf8a7f99e51eeb2b4026f801ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 29/44] fix: a search of the local network is marked as
 broadcast

---
 whois.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whois.go b/whois.go
index 338081e..0726690 100644
--- a/whois.go
+++ b/whois.go
@@ -60,8 +60,9 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	}
 	// Send when answers are received
 	var sendErr error
+	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	send := func() {
-		_, sendErr = c.Send(dest, npdu, enc.Bytes(), nil)
+		_, sendErr = c.Send(dest, npdu, enc.Bytes(), broadcast)
 	}
 	values, err := c.utsm.Subscribe(start, end, utsm.Subscribed(send))
 	if err != nil {
-- 
2.43.0


From 82d1031084eb76ba4d6e0b8559d3197b568fb5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:59 +0000
Subject: [PATCH 30/44] fix: an announcement of an object that is no device is
 an error

---
 encoding/iam.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/encoding/iam.go b/encoding/iam.go
index 4ca05f8..c64781a 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -38,6 +39,9 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 		return err
 	}
 	if i, ok := objID.(btypes.ObjectID); ok {
+		if i.Type != btypes.DeviceType {
+			return fmt.Errorf("announcement of object %v, which is no device", i)
+		}
 		id.ID = i
 	}
 	maxapdu, _ := d.appDataOfType(tagUint)
-- 
2.43.0


From 0277448827923cd4089087ce84bbd4c255df27b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:00 +0000
Subject: [PATCH 31/44] fix: a search does not change the options of its caller

---
 whois.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whois.go b/whois.go
index 0726690..a70a083 100644
--- a/whois.go
+++ b/whois.go
@@ -21,10 +21,11 @@ type WhoIsOpts struct {
 func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
+	netNumber := wh.NetworkNumber
 	low := wh.Low
 	high := wh.High
 	if wh.GlobalBroadcast {
-		wh.NetworkNumber = btypes.GlobalBroadcast //65535
+		netNumber = btypes.GlobalBroadcast //65535
 	}
 	if low <= 0 {
 		low = 0
@@ -33,7 +34,7 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		high = 4194304 //max dev id
 	}
 
-	dest.Net = wh.NetworkNumber
+	dest.Net = netNumber
 	npdu := &btypes.NPDU{
 		Version:               btypes.ProtocolVersion,
 		Destination:           &dest,
-- 
2.43.0


From cfadbfd62a3ff2b940598b1655d79f3827df7126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 32/44] fix: UDPToAddress lost IPv4 addresses given in 16 bytes

---
 datalink/udp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index 314c3fc..4b660e9 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -143,9 +143,10 @@ func UDPToAddress(n *net.UDPAddr) *btypes.Address {
 	// Length of IP plus the port
 	length := net.IPv4len + 2
 	a.Mac = make([]uint8, length)
-	//Encode ip
-	for i := 0; i < net.IPv4len; i++ {
-		a.Mac[i] = n.IP[i]
+	//Encode ip (an IPv4 address may be given in 4 or in 16 bytes)
+	ip := n.IP.To4()
+	for i := 0; i < len(ip); i++ {
+		a.Mac[i] = ip[i]
 	}
 	// Encode port
 	a.Mac[net.IPv4len+0] = uint8(p >> 8)
-- 
2.43.0


From de0b28536337e6b4278f250bbf4d94fc94859d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:58 +0000
Subject: [PATCH 33/44] fix: devices with an invalid ip or port were given
 another address

---
 btypes/device.go      | 4 ++--
 helpers/ipbytes/ip.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/btypes/device.go b/btypes/device.go
index 0357c32..c756d85 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -66,7 +66,7 @@ func NewDevice(device *Device) (*Device, error) {
 	//check ip
 	ok := validation.ValidIP(device.Ip)
 	if !ok {
-		fmt.Println("fail ip")
+		return nil, fmt.Errorf("device.NewDevice() invalid ip %q", device.Ip)
 	}
 	//check port
 	if port == 0 {
@@ -74,7 +74,7 @@ func NewDevice(device *Device) (*Device, error) {
 	}
 	ok = validation.ValidPort(port)
 	if !ok {
-		fmt.Println("fail port")
+		return nil, fmt.Errorf("device.NewDevice() invalid port %d", port)
 	}
 
 	ip, err := ip2bytes.New(device.Ip, uint16(port))
diff --git a/helpers/ipbytes/ip.go b/helpers/ipbytes/ip.go
index 30cc36a..62f5e1f 100644
--- a/helpers/ipbytes/ip.go
+++ b/helpers/ipbytes/ip.go
@@ -31,6 +31,9 @@ func pack32BinaryIP4(ip4Address string) []byte {
 - returns uint8[192 168 15 10 186 192]
 */
 func New(ip string, port uint16) ([]uint8, error) {
+	if net.ParseIP(ip).To4() == nil {
+		return nil, errors.New("helpers.mac.BuildMac() invalid IPv4 address " + ip)
+	}
 	buf := new(bytes.Buffer)
 	err := binary.Write(buf, binary.BigEndian, port)
 	if err != nil {
-- 
2.43.0


From d898cedb0e1afe9548ff9e68c344ca57a569dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:24 +0000
Subject: [PATCH 34/44] fix: an object scan checks what it is answered and fits
 what the device takes

---
 objectlist.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..d057ea0 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -53,13 +53,16 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 	if err != nil {
 		return nil, fmt.Errorf("unable to read multiple properties: %v", err)
 	}
-	if len(resp.Objects) == 0 {
-		return nil, fmt.Errorf("no data was returned")
+	if len(resp.Objects) != 1 || len(resp.Objects[0].Properties) != end-start+1 {
+		return nil, fmt.Errorf("incomplete data was returned")
 	}
 
 	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
 
 	for i, prop := range resp.Objects[0].Properties {
+		if prop.Type != btypes.PropObjectList || prop.ArrayIndex != uint32(start+i) {
+			return nil, fmt.Errorf("expected element %d of the object list, got property %d index %d", start+i, prop.Type, prop.ArrayIndex)
+		}
 		id, ok := prop.Data.(btypes.ObjectID)
 		if !ok {
 			return nil, fmt.Errorf("expected type Object ID, got %T", prop.Data)
@@ -71,6 +74,7 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 }
 
 const readPropRequestSize = 20
+const readObjectInfoSize = 90
 
 func objectCopy(dest btypes.ObjectMap, src []btypes.Object) {
 	for _, o := range src {
@@ -92,6 +96,9 @@ func (c *client) objectList(dev *btypes.Device) error {
 
 	// Scan size is broken
 	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	if scanSize < 1 {
+		scanSize = 1
+	}
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
@@ -146,13 +153,25 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if counter == 0 {
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
 	}
+	if len(resp.Objects) != counter {
+		return fmt.Errorf("asked for %d objects, got %d", counter, len(resp.Objects))
+	}
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
+		if r.ID != keys[i] {
+			return fmt.Errorf("expected object %v, got %v", keys[i], r.ID)
+		}
+		if len(r.Properties) != 2 || r.Properties[0].Type != btypes.PropObjectName || r.Properties[1].Type != btypes.PropDescription {
+			return fmt.Errorf("expected name and description of %v, got %v", r.ID, r.Properties)
+		}
 		name, ok = r.Properties[0].Data.(string)
 		if !ok {
 			return fmt.Errorf("expecting string got %T", r.Properties[0].Data)
@@ -171,7 +190,11 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 
 func (c *client) allObjectInformation(dev *btypes.Device) error {
 	objs := dev.ObjectSlice()
-	incrSize := 5
+	// name and description of one object take some 90 bytes, and the answer has to fit
+	incrSize := min(5, int(dev.MaxApdu)/readObjectInfoSize)
+	if incrSize < 1 {
+		incrSize = 1
+	}
 
 	var err error
 	for i := 0; i < len(objs); i += incrSize {
-- 
2.43.0


From 6ab63e35df9bbaba3042a200860a262658f1f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 35/44] fix: an object list is read completely or an error says
 why not

---
 helpers/data/data.go |  8 ++++++++
 network/objects.go   | 31 ++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/helpers/data/data.go b/helpers/data/data.go
index a8d859c..ac8ea27 100644
--- a/helpers/data/data.go
+++ b/helpers/data/data.go
@@ -6,6 +6,10 @@ import (
 )
 
 func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.(*btypes.BitString)
 
 	if !ok {
@@ -16,6 +20,10 @@ func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
 }
 
 func ToArr(d btypes.PropertyData) (ok bool, out []interface{}) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.([]interface{})
 	if !ok {
 		fmt.Println("unable to get object list")
diff --git a/network/objects.go b/network/objects.go
index f7367d4..4f242c0 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -46,9 +46,18 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
-	_, ids := data.ToArr(out)
+	if objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID); ok { //a list of one
+		return []btypes.ObjectID{objectID}, nil
+	}
+	ok, ids := data.ToArr(out)
+	if !ok {
+		return nil, fmt.Errorf("expected the object list, got %T", out.Object.Properties[0].Data)
+	}
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object in the object list, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
@@ -69,13 +78,25 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, fmt.Errorf("unable to get the length of the object list")
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		if len(out.Object.Properties) == 0 {
+			return nil, fmt.Errorf("no value returned for element %d of the object list", i)
+		}
+		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected element %d of the object list, got %T", i, out.Object.Properties[0].Data)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, err
-- 
2.43.0


From 635886d33e22366b2db996a76024e0b06f17e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:43 +0000
Subject: [PATCH 36/44] fix: a device of a network is reached at its own port

---
 network/device.go | 2 ++
 network/store.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/network/device.go b/network/device.go
index 1dcc22f..3957da7 100644
--- a/network/device.go
+++ b/network/device.go
@@ -29,7 +29,9 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 		return nil, err
 	}
 	dev := &btypes.Device{
+		ID:            btypes.ObjectID{Instance: btypes.ObjectInstance(device.DeviceID)},
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index 426ff77..5773448 100644
--- a/network/store.go
+++ b/network/store.go
@@ -59,7 +59,9 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) error {
 	var err error
 	dev := &btypes.Device{
+		ID:            btypes.ObjectID{Instance: btypes.ObjectInstance(device.DeviceID)},
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From 1f2946888859ead88bb119057fa8f0d7a37163fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 37/44] fix: a point read gives what the device sent or an
 error

---
 btypes/priority/priority.go | 18 ++++------
 network/points.go           | 70 ++++++++++++++++++++++++++++++-------
 network/strings.go          | 19 ++++++++--
 3 files changed, 80 insertions(+), 27 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..69c854e 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -4,7 +4,6 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/helpers/data"
 	"github.com/NubeDev/bacnet/helpers/nils"
-	"reflect"
 )
 
 func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float32) {
@@ -12,17 +11,12 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 	_, arr := data.ToArr(in)
 	for i, value := range arr {
 		var returnValue *float32
-		typeOf := reflect.TypeOf(value)
-		if typeOf.Name() != "Null" {
-			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			}
+		switch f := value.(type) {
+		case uint32: //binary and multi-state
+			flt := float32(f)
+			returnValue = nils.NewFloat32(flt)
+		case float32:
+			returnValue = nils.NewFloat32(f)
 		}
 		switch i {
 		case 0:
diff --git a/network/points.go b/network/points.go
index 120aab7..91d5858 100644
--- a/network/points.go
+++ b/network/points.go
@@ -2,8 +2,10 @@ package network
 
 import (
 	"errors"
+	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
+	"github.com/NubeDev/bacnet/btypes/null"
 	"github.com/NubeDev/bacnet/btypes/priority"
 	"github.com/NubeDev/bacnet/btypes/units"
 	"github.com/NubeDev/bacnet/helpers/data"
@@ -46,25 +48,51 @@ func (device *Device) PointDetails(pnt *Point) (resp *PointDetails, err error) {
 		if device.isPointBool(pnt) && prop == btypes.PropUnits {
 			continue
 		}
-		read, _ := device.Read(obj)
+		read, readErr := device.Read(obj)
 		resp.ObjectType = pnt.ObjectType
 		resp.PointType = pnt.ObjectType.String()
 		resp.ObjectID = pnt.ObjectID
 		switch prop {
 		case btypes.PropObjectName:
-			resp.Name = device.toStr(read)
+			ok, name := data.ToStr(read)
+			if readErr == nil && !ok {
+				readErr = errUnexpectedValue(read)
+			}
+			if readErr != nil {
+				err = readErr
+				continue
+			}
+			resp.Name = name
 		case btypes.PropUnits:
-			resp.Unit = device.toUint32(read)
+			ok, unit := data.ToUint32(read)
+			if readErr == nil && !ok {
+				readErr = errUnexpectedValue(read)
+			}
+			if readErr != nil {
+				if err == nil && device.isPointFloat(pnt) { //others need not have a unit
+					err = readErr
+				}
+				continue
+			}
+			resp.Unit = unit
 			resp.UnitString = units.Unit.String(units.Unit(resp.Unit))
 		}
 	}
-	return resp, nil
+	return resp, err
 }
 
 /*
 ***** READS *****
  */
 
+//errUnexpectedValue the device answered with something else than what was asked for
+func errUnexpectedValue(d btypes.PropertyData) error {
+	if len(d.Object.Properties) == 0 {
+		return errors.New("no value returned")
+	}
+	return fmt.Errorf("unexpected value of type %T", d.Object.Properties[0].Data)
+}
+
 //PointReadFloat32 use this when wanting to read point values for an AI, AV, AO
 func (device *Device) PointReadFloat32(pnt *Point) (float32, error) {
 	if device.isPointFloat(pnt) {
@@ -81,7 +109,11 @@ func (device *Device) PointReadFloat32(pnt *Point) (float32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toFloat(read), nil
+	ok, out := data.ToFloat32(read)
+	if !ok {
+		return 0, errUnexpectedValue(read)
+	}
+	return out, nil
 }
 
 //PointReadPriority use this when wanting to read point values for an AI, AV, AO
@@ -101,6 +133,17 @@ func (device *Device) PointReadPriority(pnt *Point) (pri *priority.Float32, err
 	if err != nil {
 		return pri, err
 	}
+	_, arr := data.ToArr(read)
+	if len(arr) != 16 {
+		return pri, errUnexpectedValue(read)
+	}
+	for _, value := range arr {
+		switch value.(type) {
+		case null.Null, float32, uint32:
+		default:
+			return pri, errUnexpectedValue(read)
+		}
+	}
 	return priority.BuildFloat32(read, pnt.ObjectType), nil
 }
 
@@ -120,7 +163,11 @@ func (device *Device) PointReadBool(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	ok, out := data.ToUint32(read)
+	if !ok {
+		return 0, errUnexpectedValue(read)
+	}
+	return out, nil
 }
 
 //PointReadMultiState use this when wanting to read point values for an MI, MV, MO
@@ -139,7 +186,11 @@ func (device *Device) PointReadMultiState(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	ok, out := data.ToUint32(read)
+	if !ok {
+		return 0, errUnexpectedValue(read)
+	}
+	return out, nil
 }
 
 //PointReleasePriority use this when releasing a priority
@@ -229,11 +280,6 @@ func (device *Device) PointWriteMultiState(pnt *Point, value uint32) error {
 ***** HELPERS *****
  */
 
-func (device *Device) toFloat(d btypes.PropertyData) float32 {
-	_, out := data.ToFloat32(d)
-	return out
-}
-
 func (device *Device) ToBitString(d btypes.PropertyData) *btypes.BitString {
 	_, out := data.ToBitString(d)
 	return out
diff --git a/network/strings.go b/network/strings.go
index 9f5f26d..1dc7963 100644
--- a/network/strings.go
+++ b/network/strings.go
@@ -3,6 +3,7 @@ package network
 import (
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
+	"github.com/NubeDev/bacnet/helpers/data"
 )
 
 //ReadString to read a string like objectName
@@ -11,7 +12,11 @@ func (device *Device) ReadString(obj *Object) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	ok, out := data.ToStr(read)
+	if !ok {
+		return "", errUnexpectedValue(read)
+	}
+	return out, nil
 }
 
 func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, error) {
@@ -25,7 +30,11 @@ func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, er
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	ok, out := data.ToStr(read)
+	if !ok {
+		return "", errUnexpectedValue(read)
+	}
+	return out, nil
 }
 
 func (device *Device) WriteDeviceName(ObjectID btypes.ObjectInstance, value string) error {
@@ -53,7 +62,11 @@ func (device *Device) ReadPointName(pnt *Point) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	ok, out := data.ToStr(read)
+	if !ok {
+		return "", errUnexpectedValue(read)
+	}
+	return out, nil
 }
 
 func (device *Device) WritePointName(pnt *Point, value string) error {
-- 
2.43.0


From 1a9242799a8ad3e71be17550412b83a23ad48cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:23 +0000
Subject: [PATCH 38/44] fix: discovered devices have records, addresses and
 details of their own

---
 network/discover.go |  4 ++++
 network/whois.go    | 41 +++++++++++++++++++++--------------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..6791eae 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -91,13 +91,17 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 	if err != nil {
 		return devices, err
 	}
+	network := device.network
 	for _, dev := range whois {
+		//each device has a record of its own, and is asked for its details at its own address
+		device := &Device{network: network, dev: dev}
 		if len(dev.Addr.Adr) > 0 {
 			device.MacMSTP = int(dev.Addr.Adr[0])
 		}
 		host, _ := dev.Addr.UDPAddr()
 		device.DeviceID = int(dev.ID.Instance)
 		device.Ip = host.IP.String()
+		device.Port = host.Port
 		device.NetworkNumber = int(dev.Addr.Net)
 		device.MaxApdu = dev.MaxApdu
 		device.Segmentation = uint32(dev.Segmentation)
diff --git a/network/whois.go b/network/whois.go
index 74cb953..ba84b84 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -24,17 +24,7 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 	resp, err := net.bacnet.WhoIs(options)
 	var devices []btypes.Device
 	for _, device := range resp {
-		buildDevice := &btypes.Device{
-			DeviceID:      device.DeviceID,
-			Ip:            device.Ip,
-			Port:          device.Port,
-			NetworkNumber: device.NetworkNumber,
-			MacMSTP:       device.MacMSTP,
-			MaxApdu:       device.MaxApdu,
-			Segmentation:  device.Segmentation,
-		}
-		dev, err := btypes.NewDevice(buildDevice)
-		details, err := net.GetDeviceDetails(*dev)
+		details, err := net.GetDeviceDetails(device)
 		if err != nil {
 			return nil, err
 		}
@@ -48,26 +38,37 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 }
 
 func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails, err error) {
-	resp = &DeviceDetails{}
+	//what the device does not tell stays as it was announced
+	resp = &DeviceDetails{
+		Name:         device.DeviceName,
+		MaxApdu:      device.MaxApdu,
+		VendorName:   device.VendorName,
+		Segmentation: uint32(device.Segmentation),
+	}
 	props := []btypes.PropertyType{btypes.PropObjectName, btypes.PropMaxAPDU, btypes.PropVendorName, btypes.PropSegmentationSupported}
 	for _, prop := range props {
 		property, err := net.bacnet.ReadProperty(device, buildObj(device.DeviceID, prop))
 		if err != nil {
 			log.Errorln("bacnet-master-GetDeviceDetails()", err.Error())
+			continue
 		}
 		switch prop {
 		case btypes.PropObjectName:
-			_, read := data.ToStr(property)
-			resp.Name = read
+			if ok, read := data.ToStr(property); ok {
+				resp.Name = read
+			}
 		case btypes.PropMaxAPDU:
-			_, read := data.ToUint32(property)
-			resp.MaxApdu = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.MaxApdu = read
+			}
 		case btypes.PropVendorName:
-			_, read := data.ToStr(property)
-			resp.VendorName = read
+			if ok, read := data.ToStr(property); ok {
+				resp.VendorName = read
+			}
 		case btypes.PropSegmentationSupported:
-			_, read := data.ToUint32(property)
-			resp.Segmentation = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.Segmentation = read
+			}
 		case btypes.ProtocolServicesSupported:
 			_, read := data.ToBitString(property)
 			resp.ProtocolServicesSupported = read
-- 
2.43.0


From 7271d156d7fd5fb13b36aa6a74031be3de721d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 39/44] fix: the registry of networks and devices refuses what
 is incomplete with an error

---
 network/base.go   | 13 ++++++++-----
 network/device.go |  9 ++++++---
 network/store.go  | 45 +++++++++++++++++++++++++++++++--------------
 3 files changed, 45 insertions(+), 22 deletions(-)

diff --git a/network/base.go b/network/base.go
index ffd4269..8b79017 100644
--- a/network/base.go
+++ b/network/base.go
@@ -18,6 +18,13 @@ type Network struct {
 
 // New returns a new instance of bacnet network
 func New(net *Network) (*Network, error) {
+	if net == nil {
+		return nil, errors.New("network can not be nil")
+	}
+	//check before the socket is opened
+	if net.Store == nil || net.Store.BacStore == nil {
+		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  net.Interface,
 		Ip:         net.Ip,
@@ -29,11 +36,7 @@ func New(net *Network) (*Network, error) {
 		return nil, err
 	}
 	net.bacnet = bc
-	if net.Store.BacStore != nil {
-		net.Store.BacStore.Set(net.StoreID, net, -1)
-	} else {
-		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
-	}
+	net.Store.BacStore.Set(net.StoreID, net, -1)
 	return net, nil
 }
 
diff --git a/network/device.go b/network/device.go
index 3957da7..d1a7b55 100644
--- a/network/device.go
+++ b/network/device.go
@@ -1,6 +1,7 @@
 package network
 
 import (
+	"errors"
 	"fmt"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
@@ -25,8 +26,10 @@ type Device struct {
 func NewDevice(net *Network, device *Device) (*Device, error) {
 	var err error
 	if net == nil {
-		fmt.Println("network can not be nil")
-		return nil, err
+		return nil, errors.New("network can not be nil")
+	}
+	if device == nil {
+		return nil, errors.New("device can not be nil")
 	}
 	dev := &btypes.Device{
 		ID:            btypes.ObjectID{Instance: btypes.ObjectInstance(device.DeviceID)},
@@ -48,7 +51,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	device.network = net.bacnet
 	device.dev = *dev
-	if net.Store.BacStore != nil {
+	if net.Store != nil && net.Store.BacStore != nil {
 		net.Store.BacStore.Set(device.StoreID, device, -1)
 	}
 	return device, nil
diff --git a/network/store.go b/network/store.go
index 5773448..a81770f 100644
--- a/network/store.go
+++ b/network/store.go
@@ -23,6 +23,9 @@ func NewStore() *Store {
 
 //NewNetwork updated a cached
 func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) error {
+	if store == nil || store.BacStore == nil {
+		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  iface,
 		Ip:         ip,
@@ -34,30 +37,36 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		return err
 	}
 	bacnetNet := &Network{
-		Interface: iface,
-		Port:      port,
-		bacnet:    bc,
-	}
-	if store.BacStore != nil {
-		store.BacStore.Set(storeID, bacnetNet, -1)
-		return nil
-	} else {
-		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
+		Interface:  iface,
+		Ip:         ip,
+		Port:       port,
+		SubnetCIDR: subnet,
+		StoreID:    storeID,
+		Store:      store,
+		bacnet:     bc,
 	}
+	store.BacStore.Set(storeID, bacnetNet, -1)
+	return nil
 }
 
 func (store *Store) GetNetwork(uuid string) (*Network, error) {
-	cli, ok := store.BacStore.Get(uuid)
+	cli, _ := store.get(uuid)
+	parse, ok := cli.(*Network)
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
 	}
-	parse := cli.(*Network)
 	return parse, nil
 }
 
 //UpdateDevice updated a cached device
 func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) error {
 	var err error
+	if net == nil {
+		return errors.New("network can not be nil")
+	}
+	if device == nil {
+		return errors.New("device can not be nil")
+	}
 	dev := &btypes.Device{
 		ID:            btypes.ObjectID{Instance: btypes.ObjectInstance(device.DeviceID)},
 		Ip:            device.Ip,
@@ -78,17 +87,25 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	}
 	device.network = net.bacnet
 	device.dev = *dev
-	if store.BacStore != nil {
+	if store != nil && store.BacStore != nil {
 		store.BacStore.Set(storeID, device, -1)
 	}
 	return nil
 }
 
 func (store *Store) GetDevice(uuid string) (*Device, error) {
-	cli, ok := store.BacStore.Get(uuid)
+	cli, _ := store.get(uuid)
+	parse, ok := cli.(*Device)
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
 	}
-	parse := cli.(*Device)
 	return parse, nil
 }
+
+//get returns what is stored, which may be a network or a device
+func (store *Store) get(uuid string) (interface{}, bool) {
+	if store == nil || store.BacStore == nil {
+		return nil, false
+	}
+	return store.BacStore.Get(uuid)
+}
-- 
2.43.0


From 521c1c5df4031c8127977cc5ad50db5a949b4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:15 +0000
Subject: [PATCH 40/44] fix: bit strings do not panic beyond their bytes or
 when they are missing

---
 btypes/bitstring.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 3ae01a0..9d786c4 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -13,6 +13,9 @@ func NewBitString(bufferSize int) *BitString {
 	if bufferSize > MaxBitStringBytes {
 		bufferSize = MaxBitStringBytes
 	}
+	if bufferSize < 0 {
+		bufferSize = 0
+	}
 	return &BitString{
 		BitUsed: 0,
 		Value:   make([]byte, bufferSize),
@@ -20,8 +23,8 @@ func NewBitString(bufferSize int) *BitString {
 }
 
 func (bs *BitString) GetValue() []bool {
-	value := make([]bool, bs.BitUsed)
-	for i := uint8(0); i < bs.BitUsed; i++ {
+	value := make([]bool, bs.GetBitUsed())
+	for i := uint8(0); i < bs.GetBitUsed(); i++ {
 		if bs.Bit(i) {
 			value[i] = true
 		} else {
@@ -39,7 +42,7 @@ func (bs *BitString) String() string {
 func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 	byteNumber := bitNumber / 8
 	var bitMask uint8 = 1
-	if byteNumber < MaxBitStringBytes {
+	if byteNumber < bs.bytesCapacity() {
 		/* set max bits used */
 		if bs.BitUsed < (bitNumber + 1) {
 			bs.BitUsed = bitNumber + 1
@@ -56,7 +59,7 @@ func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 func (bs *BitString) Bit(bitNumber uint8) bool {
 	byteNumber := bitNumber / 8
 	bitMask := uint8(1)
-	if bitNumber < (MaxBitStringBytes * 8) {
+	if byteNumber < bs.bytesCapacity() {
 		bitMask = bitMask << (bitNumber - (byteNumber * 8))
 		return (bs.Value[byteNumber] & bitMask) != 0
 	}
@@ -64,9 +67,23 @@ func (bs *BitString) Bit(bitNumber uint8) bool {
 }
 
 func (bs *BitString) GetBitUsed() uint8 {
+	if bs == nil {
+		return 0
+	}
 	return bs.BitUsed
 }
 
+// bytesCapacity is the number of bytes there are and that can be used
+func (bs *BitString) bytesCapacity() uint8 {
+	if bs == nil {
+		return 0
+	}
+	if len(bs.Value) > MaxBitStringBytes {
+		return MaxBitStringBytes
+	}
+	return uint8(len(bs.Value))
+}
+
 func (bs *BitString) BytesUsed() uint8 {
 	if bs != nil && bs.BitUsed > 0 {
 		return (bs.BitUsed-1)/8 + 1
@@ -75,14 +92,14 @@ func (bs *BitString) BytesUsed() uint8 {
 }
 
 func (bs *BitString) Byte(index uint8) byte {
-	if bs != nil && index < MaxBitStringBytes {
+	if index < bs.bytesCapacity() {
 		return bs.Value[index]
 	}
 	return 0
 }
 
 func (bs *BitString) SetByte(index uint8, value byte) bool {
-	if bs != nil && index < MaxBitStringBytes {
+	if index < bs.bytesCapacity() {
 		bs.Value[index] = value
 		return true
 	}
@@ -90,7 +107,7 @@ func (bs *BitString) SetByte(index uint8, value byte) bool {
 }
 
 func (bs *BitString) SetBitsUsed(byteUsed uint8, bitsUnused uint8) bool {
-	if bs != nil {
+	if bs != nil && byteUsed <= bs.bytesCapacity() && bitsUnused <= byteUsed*8 {
 		bs.BitUsed = byteUsed*8 - bitsUnused
 		return true
 	}
@@ -98,8 +115,5 @@ func (bs *BitString) SetBitsUsed(byteUsed uint8, bitsUnused uint8) bool {
 }
 
 func (bs *BitString) BitsCapacity() uint8 {
-	if bs != nil {
-		return uint8(len(bs.Value) * 8)
-	}
-	return 0
+	return bs.bytesCapacity() * 8
 }
-- 
2.43.0


From 9841e90b5d2e08986b9ad568ae85ba8d00b71103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:17 +0000
Subject: [PATCH 41/44] fix: collections of objects of types without a name
 survive JSON

---
 btypes/object.go     |  9 +++++++--
 btypes/object_map.go | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/btypes/object.go b/btypes/object.go
index 8a02bbd..dc99906 100644
--- a/btypes/object.go
+++ b/btypes/object.go
@@ -89,10 +89,15 @@ var objStrTypeMap = map[string]ObjectType{
 	CharacterStringStr:   CharacterString,
 }
 
+const unknownTypeFormat = "Unknown (%d)"
+
 func GetType(s string) ObjectType {
 	t, ok := objStrTypeMap[s]
 	if !ok {
-		return 0
+		// types without a name, see String
+		if _, err := fmt.Sscanf(s, unknownTypeFormat, &t); err != nil {
+			return 0
+		}
 	}
 	return t
 }
@@ -100,7 +105,7 @@ func GetType(s string) ObjectType {
 func (t ObjectType) String() string {
 	s, ok := objTypeMap[t]
 	if !ok {
-		return fmt.Sprintf("Unknown (%d)", t)
+		return fmt.Sprintf(unknownTypeFormat, t)
 	}
 	return fmt.Sprintf("%s", s)
 }
diff --git a/btypes/object_map.go b/btypes/object_map.go
index f87c5b0..c93a4d2 100644
--- a/btypes/object_map.go
+++ b/btypes/object_map.go
@@ -1,6 +1,9 @@
 package btypes
 
-import "encoding/json"
+import (
+	"encoding/json"
+	"fmt"
+)
 
 type ObjectMap map[ObjectType]map[ObjectInstance]Object
 
@@ -30,20 +33,26 @@ func (om ObjectMap) MarshalJSON() ([]byte, error) {
 	return json.Marshal(m)
 }
 
-func (om ObjectMap) UnmarshalJSON(data []byte) error {
+func (om *ObjectMap) UnmarshalJSON(data []byte) error {
 	m := make(map[string]map[ObjectInstance]Object, 0)
 	err := json.Unmarshal(data, &m)
 	if err != nil {
 		return err
 	}
 
+	if *om == nil && m != nil {
+		*om = make(ObjectMap)
+	}
 	for t, sub := range m {
 		key := GetType(t)
-		if om[key] == nil {
-			om[key] = make(map[ObjectInstance]Object)
+		if key.String() != t {
+			return fmt.Errorf("%q is not a valid object type", t)
+		}
+		if (*om)[key] == nil {
+			(*om)[key] = make(map[ObjectInstance]Object)
 		}
 		for inst, obj := range sub {
-			om[key][inst] = obj
+			(*om)[key][inst] = obj
 		}
 	}
 	return nil
-- 
2.43.0


From b20871db3206ec30b9abe80c54af082532b48a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 42/44] fix: an error class above 65535 is reported as another
 class

---
 btypes/bacerr/bacerr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btypes/bacerr/bacerr.go b/btypes/bacerr/bacerr.go
index 67e9085..42e5bd8 100644
--- a/btypes/bacerr/bacerr.go
+++ b/btypes/bacerr/bacerr.go
@@ -1,7 +1,7 @@
 package bacerr
 
 //ErrorClass is the type of error send by an object after a request
-type ErrorClass uint16
+type ErrorClass uint32
 
 //ErrorCode identifies precisely the error
 type ErrorCode uint32
-- 
2.43.0


From af1ffbc3f3d2c20f90ca42f0dd92799875b5b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:29 +0000
Subject: [PATCH 43/44] fix: a unit above 65535 is shown under the name of
 another unit

---
 btypes/units/units.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btypes/units/units.go b/btypes/units/units.go
index 26cd6ff..63dc750 100644
--- a/btypes/units/units.go
+++ b/btypes/units/units.go
@@ -1,6 +1,6 @@
 package units
 
-type Unit uint16
+type Unit uint32
 
 //go:generate stringer -type=Unit
 const (
-- 
2.43.0


From 0abf94a0ec09d1d89a44ee30eb6b5a37024b0c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:50 +0000
Subject: [PATCH 44/44] fix: numbers of networks and stations that no address
 can hold are cut to those of others

---
 btypes/device.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/btypes/device.go b/btypes/device.go
index c756d85..147cb08 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -76,6 +76,13 @@ func NewDevice(device *Device) (*Device, error) {
 	if !ok {
 		return nil, fmt.Errorf("device.NewDevice() invalid port %d", port)
 	}
+	//check network number and station address
+	if device.NetworkNumber < 0 || device.NetworkNumber > 0xFFFF {
+		return nil, fmt.Errorf("device.NewDevice() invalid network number %d", device.NetworkNumber)
+	}
+	if device.MacMSTP < 0 || device.MacMSTP > 0xFF {
+		return nil, fmt.Errorf("device.NewDevice() invalid station address %d", device.MacMSTP)
+	}
 
 	ip, err := ip2bytes.New(device.Ip, uint16(port))
 	if err != nil {
-- 
2.43.0

