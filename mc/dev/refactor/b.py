#!/usr/bin/env python3
# b.py REPO: rewrite the codec, the network package and most client services without changing behaviour.
import re, sys
R = sys.argv[1]

def rd(f): return open(f'{R}/{f}').read()
def wr(f, s): open(f'{R}/{f}', 'w').write(s)
def fn(f, head, new):
    """replace the top-level function that starts with head"""
    s = rd(f)
    i = s.find('\n' + head)
    assert i >= 0 and s.find('\n' + head, i + 1) < 0, (f, head)
    j = s.index('\n}\n', i) + 3
    wr(f, s[:i+1] + new.strip('\n') + '\n' + s[j:])
def sub(f, old, new, n=1):
    s = rd(f)
    assert s.count(old) == n, (f, old, s.count(old))
    wr(f, s.replace(old, new))

# ---- encoding/decoder.go: no reflection, cursor instead of bytes.Buffer reads
D = 'encoding/decoder.go'
fn(D, 'func (d *Decoder) decode(', '''
func (d *Decoder) take(n int) []byte {
	if d.err != nil {
		return nil
	}
	left := d.buff.Len()
	if left < n {
		d.buff.Next(left)
		if left == 0 {
			d.err = io.EOF
		} else {
			d.err = io.ErrUnexpectedEOF
		}
		return nil
	}
	return d.buff.Next(n)
}

func (d *Decoder) u8() (v uint8) {
	if b := d.take(1); b != nil {
		v = b[0]
	}
	return
}

func (d *Decoder) bigEndian(n int) (v uint64) {
	for _, b := range d.take(n) {
		v = v<<8 | uint64(b)
	}
	return v
}

func (d *Decoder) decode(data interface{}) {
	if d.err != nil {
		return
	}
	switch p := data.(type) {
	case *uint8:
		if b := d.take(1); b != nil {
			*p = b[0]
		}
	case *tagMeta:
		if b := d.take(1); b != nil {
			*p = tagMeta(b[0])
		}
	case *uint16:
		if b := d.take(2); b != nil {
			*p = uint16(b[0])<<8 | uint16(b[1])
		}
	case *uint32:
		if b := d.take(4); b != nil {
			*p = uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		}
	default:
		d.err = binary.Read(d.buff, EncodingEndian, data)
	}
}
''')
fn(D, 'func (d *Decoder) tagNumber() (', '''
func (d *Decoder) tagNumber() (uint8, tagMeta) {
	meta := tagMeta(d.u8())
	if high := uint8(meta) >> 4; high != 0x0F {
		return high, meta
	}
	return d.u8(), meta
}
''')
fn(D, 'func (d *Decoder) value(meta', '''
func (d *Decoder) value(meta tagMeta) uint32 {
	low := uint32(meta) & 7
	switch {
	case low == 5:
		switch n := d.u8(); n {
		case flag16bit:
			return uint32(d.bigEndian(2))
		case flag32bit:
			return uint32(d.bigEndian(4))
		default:
			return uint32(n)
		}
	case low < 5:
		return low
	case meta.isContextSpecific():
		return 0
	}
	d.invalidLength(int(low))
	return low
}
''')
fn(D, 'func (d *Decoder) objectId(', '''
func (d *Decoder) objectId() (btypes.ObjectType, btypes.ObjectInstance) {
	v := uint32(d.bigEndian(4))
	return btypes.ObjectType(v >> InstanceBits), btypes.ObjectInstance(v & (1<<InstanceBits - 1))
}
''')
fn(D, 'func (d *Decoder) unsigned24(', '''
func (d *Decoder) unsigned24() uint32 {
	return uint32(d.bigEndian(3))
}
''')
fn(D, 'func (d *Decoder) unsigned(', '''
func (d *Decoder) unsigned(length int) uint32 {
	if length < size8 || length > size32 {
		d.invalidLength(length)
		return 0
	}
	return uint32(d.bigEndian(length))
}
''')
fn(D, 'func (d *Decoder) signed(', '''
func (d *Decoder) signed(length int) int32 {
	if length < size8 || length > size32 {
		d.invalidLength(length)
		return 0
	}
	drop := uint(32 - 8*length)
	return int32(uint32(d.bigEndian(length))<<drop) >> drop
}
''')
s = rd(D)
i = s.index('func (d *Decoder) signed24('); j = s.index('\n}\n', i) + 3
wr(D, s[:i] + s[j:].lstrip('\n'))
fn(D, 'func (d *Decoder) bitString(', '''
func (d *Decoder) bitString(length int) *btypes.BitString {
	raw := d.octets(length)
	if d.err != nil {
		return nil
	}
	if !validBitString(raw) {
		d.invalidLength(length)
		return nil
	}
	unused, content := raw[0], raw[1:]
	bs := btypes.NewBitString(len(content))
	for i := len(content) - 1; i >= 0; i-- {
		bs.SetByte(uint8(i), byteReverseBits(content[i]))
	}
	bs.SetBitsUsed(uint8(len(content)), unused)
	return bs
}

func validBitString(raw []byte) bool {
	if len(raw) == 0 || len(raw) > 1+btypes.MaxBitStringBytes {
		return false
	}
	if len(raw) == 1 {
		return raw[0] == 0
	}
	return raw[0] < 8
}
''')

# ---- encoding/encoder.go
E = 'encoding/encoder.go'
fn(E, 'func (e *Encoder) tagNum(', '''
func (e *Encoder) tagNum(meta tagMeta, num uint8) {
	if num > 14 {
		e.write([]byte{0xF0 | uint8(meta), num})
		return
	}
	e.write(num<<4 | uint8(meta))
}
''')
fn(E, 'func (e *Encoder) tag(tg', '''
func (e *Encoder) tag(tg tagInfo) {
	octets := make([]byte, 1, 7)
	if tg.Context {
		octets[0] |= contextSpecificBit
	}
	if tg.Opening {
		octets[0] |= contextSpecificBit | uint8(openingMask)
	}
	if tg.Closing {
		octets[0] |= contextSpecificBit | uint8(closingMask)
	}
	if tg.ID < 15 {
		octets[0] |= tg.ID << 4
	} else {
		octets[0] |= 0xF0
		octets = append(octets, tg.ID)
	}
	switch v := tg.Value; {
	case v < 5:
		octets[0] |= uint8(v)
	case v < 254:
		octets[0] |= 5
		octets = append(octets, uint8(v))
	case v < 1<<16:
		octets[0] |= 5
		octets = append(octets, flag16bit, uint8(v>>8), uint8(v))
	default:
		octets[0] |= 5
		octets = append(octets, flag32bit, uint8(v>>24), uint8(v>>16), uint8(v>>8), uint8(v))
	}
	e.write(octets)
}
''')
fn(E, 'func (e *Encoder) unsigned24(', '''
func (e *Encoder) unsigned24(value uint32) {
	e.low(value, 3)
}

// low writes the lowest n bytes
func (e *Encoder) low(value uint32, n int) {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], value)
	e.write(b[4-n:])
}
''')
fn(E, 'func (e *Encoder) unsigned(value', '''
func (e *Encoder) unsigned(value uint32) {
	e.low(value, valueLength(value))
}
''')
fn(E, 'func (e *Encoder) signed(value', '''
func (e *Encoder) signed(value int32) {
	e.low(uint32(value), signedLength(value))
}
''')
fn(E, 'func (e *Encoder) properties(', '''
func (e *Encoder) properties(id btypes.ObjectID, properties []btypes.Property, write bool) error {
	for i := range properties {
		e.property(id, &properties[i])
		if write {
			e.propertyValue(id, &properties[i])
		}
	}
	return nil
}

func (e *Encoder) property(id btypes.ObjectID, prop *btypes.Property) {
	e.contextEnumerated(0, uint32(prop.Type))
	if prop.ArrayIndex != ArrayAll {
		e.contextUnsigned(1, prop.ArrayIndex)
	}
}

func (e *Encoder) propertyValue(id btypes.ObjectID, prop *btypes.Property) {
	enumerated := false
	if _, ok := prop.Data.(uint32); ok {
		enumerated = isBOBV(id.Type, prop.Type)
	}
	e.openingTag(2)
	e.AppData(prop.Data, enumerated)
	e.closingTag(2)
	if prop.Priority != btypes.Normal {
		e.contextUnsigned(3, uint32(prop.Priority))
	}
}
''')

# ---- encoding/general.go
G = 'encoding/general.go'
fn(G, 'func valueLength(', '''
func valueLength(value uint32) int {
	n := size8
	for value >>= 8; value != 0; value >>= 8 {
		n++
	}
	return n
}
''')
fn(G, 'func signedLength(', '''
func signedLength(value int32) int {
	if value < 0 {
		value = ^value
	}
	return valueLength(uint32(value) << 1)
}
''')
fn(G, 'func decodeMaxApdu(', '''
func decodeMaxApdu(a uint8) uint {
	sizes := [...]uint{50, 128, 206, 480, 1024, 1476}
	if i := int(a & 0x0F); i < len(sizes) {
		return sizes[i]
	}
	return 0
}
''')
fn(G, 'func byteReverseBits(', '''
func byteReverseBits(c byte) (r byte) {
	for i := 0; i < 8; i++ {
		r = r<<1 | c&1
		c >>= 1
	}
	return r
}
''')
fn(G, 'func setInfoMask(', '''
func setInfoMask(in byte, b bool, mask byte) byte {
	in &^= mask
	if b {
		in |= mask
	}
	return in
}
''')
fn(G, 'func encodeMaxSegsMaxApdu(', '''
func encodeMaxSegsMaxApdu(maxSegs uint, maxApdu uint) uint8 {
	var segs, size uint8
	switch {
	case maxSegs > 64:
		segs = 7
	case maxSegs == 64:
		segs = 6
	default:
		for segs = 0; maxSegs >= 1<<(segs+1); segs++ {
		}
	}
	for i, limit := range []uint{50, 128, 206, 480, 1024, 1476} {
		if maxApdu <= limit {
			size = uint8(i)
			break
		}
	}
	return segs<<4 | size
}
''')

# ---- encoding/npdu.go
N = 'encoding/npdu.go'
fn(N, 'func (e *Encoder) NPDU(', '''
func (e *Encoder) NPDU(n *btypes.NPDU) {
	withDest := n.Destination != nil && n.Destination.Net != 0
	withSource := n.Source != nil && n.Source.Net != 0

	var control NPDUMetadata
	control.SetPriority(n.Priority)
	control.SetSource(withSource)
	control.SetDestination(withDest)
	control.SetExpectingReply(n.ExpectingReply)
	control.SetNetworkLayerMessage(n.IsNetworkLayerMessage)

	e.write(n.Version)
	e.write(control)
	if control.HasDestination() {
		e.address(n.Destination)
	}
	if control.HasSource() {
		e.address(n.Source)
	}
	if control.HasDestination() {
		e.write(n.HopCount)
	}
	if !control.IsNetworkLayerMessage() {
		return
	}
	e.write(n.NetworkLayerMessageType)
	if n.NetworkLayerMessageType >= 0x80 {
		e.write(n.VendorId)
	}
}

func (e *Encoder) address(a *btypes.Address) {
	e.write(a.Net)
	e.write(a.Len)
	e.write(a.Adr)
}
''')
fn(N, 'func (d *Decoder) NPDU(', '''
func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
	var control NPDUMetadata
	d.decode(&n.Version)
	d.decode(&control)
	n.IsNetworkLayerMessage = control.IsNetworkLayerMessage()
	n.ExpectingReply = control.ExpectingReply()
	n.Priority = control.Priority()
	n.HopCount = 0

	dest, source := control.HasDestination(), control.HasSource()
	if dest {
		n.Destination = new(btypes.Address)
		d.Address(n.Destination)
	}
	if source {
		n.Source = new(btypes.Address)
		d.Address(n.Source)
	}
	if dest {
		d.decode(&n.HopCount)
	}
	if !n.IsNetworkLayerMessage {
		return nil, d.Error()
	}
	d.decode(&n.NetworkLayerMessageType)
	if n.NetworkLayerMessageType >= 0x80 {
		d.decode(&n.VendorId)
	}
	switch n.NetworkLayerMessageType {
	case ndpu.NetworkIs:
		n.Source = new(btypes.Address)
		d.decode(&n.Source.Net)
	case ndpu.IamRouterToNetwork:
		n.Source = new(btypes.Address)
		d.decode(&n.Source.Net)
		addr = d.networks(*n.Source)
	}
	return addr, d.Error()
}

func (d *Decoder) networks(first btypes.Address) []btypes.Address {
	list := []btypes.Address{first}
	seen := map[uint16]bool{first.Net: true}
	for d.err == nil && d.len() > 0 {
		var next btypes.Address
		d.decode(&next.Net)
		if seen[next.Net] {
			continue
		}
		seen[next.Net] = true
		list = append(list, next)
	}
	return list
}
''')

# ---- encoding/appdata.go
A = 'encoding/appdata.go'
fn(A, 'func (e *Encoder) AppData(', '''
func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
	if _, isNull := i.(null.Null); isNull {
		e.applicationTag(tagNull, 0)
		return nil
	}
	if typeBVBO {
		v, ok := i.(uint32)
		if !ok {
			e.err = fmt.Errorf("error in type convertion for boolean output or boolean value %T", i)
			return e.err
		}
		i = btypes.Enumerated(v)
	}
	switch val := i.(type) {
	case bool:
		e.boolean(val)
	case int32:
		e.applicationTag(tagInt, uint32(signedLength(val)))
		e.signed(val)
	case uint32:
		e.applicationTag(tagUint, uint32(valueLength(val)))
		e.unsigned(val)
	case btypes.Enumerated:
		e.applicationTag(tagEnumerated, uint32(valueLength(uint32(val))))
		e.enumerated(uint32(val))
	case float32:
		e.applicationTag(tagReal, realLen)
		e.real(val)
	case float64:
		e.applicationTag(tagDouble, doubleLen)
		e.double(val)
	case string:
		e.applicationTag(tagCharacterString, 1+uint32(len(val)))
		e.string(val)
	case btypes.ObjectID:
		e.applicationTag(tagObjectID, objectIDLen)
		e.objectId(val.Type, val.Instance)
		return e.err
	default:
		e.err = fmt.Errorf("Unknown type %T", i)
		return e.err
	}
	return nil
}

func (e *Encoder) applicationTag(id uint8, length uint32) {
	e.tag(tagInfo{ID: id, Context: appLayerContext, Value: length})
}
''')
fn(A, 'func (e *Encoder) boolean(', '''
func (e *Encoder) boolean(x bool) {
	bit := map[bool]uint32{true: 1}
	e.tag(tagInfo{ID: tagBool, Value: bit[x]})
}
''')

# ---- encoding/apdu.go
P = 'encoding/apdu.go'
fn(P, 'func (d *Decoder) apduError(a', '''
func (d *Decoder) apduError(a *btypes.APDU) error {
	d.decode(&a.InvokeId)
	d.decode(&a.Service)

	_, meta, length := d.tagNumberAndValue()
	bracket := meta.isOpening()
	if bracket {
		_, _, length = d.tagNumberAndValue()
	}
	a.Error.Class = bacerr.ErrorClass(d.unsigned(int(length)))
	_, _, length = d.tagNumberAndValue()
	a.Error.Code = bacerr.ErrorCode(d.unsigned(int(length)))
	if bracket {
		if _, meta = d.tagNumber(); !meta.isClosing() {
			return &ErrorWrongTagType{ClosingTag}
		}
	}
	return d.Error()
}
''')

# ---- encoding/readmultipleack.go: one function per element
M = 'encoding/readmultipleack.go'
fn(M, 'func (d *Decoder) objectsWithData(', '''
func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
	for d.Error() == nil && d.len() > 0 {
		obj, err := d.objectWithData()
		if err != nil {
			return err
		}
		*objects = append(*objects, obj)
	}
	return d.Error()
}

func (d *Decoder) objectWithData() (obj btypes.Object, err error) {
	obj.Properties = make([]btypes.Property, 0)
	tag, meta, length := d.tagNumberAndValue()
	switch {
	case tag != 0:
		return obj, &ErrorIncorrectTag{Expected: 0, Given: tag}
	case !meta.isContextSpecific():
		return obj, &ErrorWrongTagType{ContextTag}
	case length != objectIDLen:
		return obj, fmt.Errorf("object identifier of length %d", length)
	}
	obj.ID.Type, obj.ID.Instance = d.objectId()

	tag, meta = d.tagNumber()
	if tag != 1 {
		return obj, &ErrorIncorrectTag{Expected: 1, Given: tag}
	}
	if !meta.isOpening() {
		return obj, &ErrorWrongTagType{OpeningTag}
	}

	tag, meta, length = d.tagNumberAndValue()
	if tag != 2 {
		return obj, &ErrorIncorrectTag{Expected: 2, Given: tag}
	}
	for tag == 2 && d.len() > 0 && !meta.isClosing() {
		if !meta.isContextSpecific() {
			return obj, &ErrorWrongTagType{ContextTag}
		}
		prop, err := d.resultElement(int(length))
		if err != nil {
			return obj, err
		}
		obj.Properties = append(obj.Properties, prop)
		tag, meta, length = d.tagNumberAndValue()
	}
	if d.err == nil && !(tag == 1 && meta.isClosing()) {
		return obj, &ErrorWrongTagType{ClosingTag}
	}
	return obj, nil
}

func (d *Decoder) resultElement(length int) (prop btypes.Property, err error) {
	prop.Type = btypes.PropertyType(d.enumerated(length))
	prop.ArrayIndex = ArrayAll

	tag, meta := d.tagNumber()
	if tag == 3 {
		if !meta.isContextSpecific() {
			return prop, &ErrorWrongTagType{ContextTag}
		}
		prop.ArrayIndex = d.unsigned(int(d.value(meta)))
		tag, meta = d.tagNumber()
	}

	if tag == 5 && meta.isOpening() {
		return prop, d.accessError()
	}
	if tag != 4 || !meta.isOpening() {
		return prop, &ErrorIncorrectTag{Expected: 4, Given: tag}
	}
	var values []interface{}
	for {
		tag, meta = d.tagNumber()
		if d.err != nil {
			return prop, d.err
		}
		if tag == 4 && meta.isClosing() {
			break
		}
		v, err := d.resultValue(prop.Type, tag, meta)
		if err != nil {
			return prop, err
		}
		values = append(values, v)
	}
	prop.Data = values
	if len(values) == 1 {
		prop.Data = values[0]
	}
	return prop, nil
}

func (d *Decoder) resultValue(property btypes.PropertyType, tag uint8, meta tagMeta) (interface{}, error) {
	if !meta.isContextSpecific() {
		return d.AppDataOfTag(tag, int(d.value(meta)))
	}
	if meta.isClosing() {
		return nil, &ErrorIncorrectTag{Expected: 4, Given: tag}
	}
	if meta.isOpening() {
		if tag != btypes.TimeStampDatetime {
			return nil, fmt.Errorf("unsupported constructed value with tag %d", tag)
		}
		return d.dateTime()
	}
	length := int(d.value(meta))
	switch kind := tagTypeInContext(property, tag); kind {
	case maxTag:
		return nil, fmt.Errorf("unsupported context tag %d", tag)
	case tagBool:
		return d.unsigned(length) != 0, nil
	default:
		return d.AppDataOfTag(kind, length)
	}
}

func (d *Decoder) dateTime() (*btypes.DataTime, error) {
	dt := new(btypes.DataTime)
	tag, meta, length := d.tagNumberAndValue()
	if tag != tagDate || meta.isContextSpecific() {
		return nil, &ErrorIncorrectTag{Expected: tagDate, Given: tag}
	}
	d.date(&dt.Date, int(length))
	tag, meta, length = d.tagNumberAndValue()
	if tag != tagTime || meta.isContextSpecific() {
		return nil, &ErrorIncorrectTag{Expected: tagTime, Given: tag}
	}
	d.time(&dt.Time, int(length))
	tag, meta = d.tagNumber()
	if tag != btypes.TimeStampDatetime || !meta.isClosing() {
		return nil, &ErrorWrongTagType{ClosingTag}
	}
	return dt, nil
}

func (d *Decoder) accessError() error {
	var class, code uint32
	if err := d.bacError(&class, &code); err != nil {
		return err
	}
	if tag, meta := d.tagNumber(); tag != 5 || !meta.isClosing() {
		return &ErrorWrongTagType{ClosingTag}
	}
	return fmt.Errorf("class %d code %d", class, code)
}
''')
fn(M, 'func (d *Decoder) bacError(', '''
func (d *Decoder) bacError(errorClass, errorCode *uint32) error {
	for _, p := range []*uint32{errorClass, errorCode} {
		data, err := d.AppData()
		if err != nil {
			return err
		}
		number, ok := data.(uint32)
		if !ok {
			return fmt.Errorf("receive bacnet error of unknown type")
		}
		*p = number
	}
	return nil
}
''')

# ---- network package
W = 'network/points.go'
fn(W, 'func (device *Device) PointReadFloat32(', '''
func (device *Device) PointReadFloat32(pnt *Point) (float32, error) {
	read, err := device.readPoint(pnt, btypes.PropPresentValue)
	if err != nil {
		return 0, err
	}
	if ok, out := data.ToFloat32(read); ok {
		return out, nil
	}
	return 0, errUnexpectedValue(read)
}

func (device *Device) readPoint(pnt *Point, prop btypes.PropertyType) (btypes.PropertyData, error) {
	return device.Read(&Object{ObjectID: pnt.ObjectID, ObjectType: pnt.ObjectType, Prop: prop, ArrayIndex: bacnet.ArrayAll})
}

func (device *Device) readPointUint32(pnt *Point) (uint32, error) {
	read, err := device.readPoint(pnt, btypes.PropPresentValue)
	if err != nil {
		return 0, err
	}
	if ok, out := data.ToUint32(read); ok {
		return out, nil
	}
	return 0, errUnexpectedValue(read)
}
''')
for n in ('Bool', 'MultiState'):
    fn(W, f'func (device *Device) PointRead{n}(', f'''
func (device *Device) PointRead{n}(pnt *Point) (uint32, error) {{
	return device.readPointUint32(pnt)
}}
''')
fn(W, 'func (device *Device) PointReadPriority(', '''
func (device *Device) PointReadPriority(pnt *Point) (*priority.Float32, error) {
	read, err := device.readPoint(pnt, btypes.PropPriorityArray)
	if err != nil {
		return &priority.Float32{}, err
	}
	if !isPriorityArray(read) {
		return &priority.Float32{}, errUnexpectedValue(read)
	}
	return priority.BuildFloat32(read, pnt.ObjectType), nil
}

func isPriorityArray(read btypes.PropertyData) bool {
	_, arr := data.ToArr(read)
	if len(arr) != 16 {
		return false
	}
	for i := range arr {
		_, isNull := arr[i].(null.Null)
		_, isReal := arr[i].(float32)
		_, isUnsigned := arr[i].(uint32)
		if !isNull && !isReal && !isUnsigned {
			return false
		}
	}
	return true
}
''')
for n, t in (('Analogue', 'float32'), ('Bool', 'uint32'), ('MultiState', 'uint32')):
    fn(W, f'func (device *Device) PointWrite{n}(', f'''
func (device *Device) PointWrite{n}(pnt *Point, value {t}) error {{
	return device.writePoint(pnt, value)
}}
''')
sub(W, '//PointWriteAnalogue use', '''func (device *Device) writePoint(pnt *Point, value interface{}) error {
	return device.Write(&Write{
		ObjectID:      pnt.ObjectID,
		ObjectType:    pnt.ObjectType,
		Prop:          btypes.PropPresentValue,
		WriteValue:    value,
		WritePriority: pnt.WritePriority,
	})
}

//PointWriteAnalogue use''')
fn(W, 'func (device *Device) PointReleasePriority(', '''
func (device *Device) PointReleasePriority(pnt *Point, pri uint8) error {
	switch {
	case pnt == nil:
		return errors.New("invalid point to PointReleasePriority()")
	case pri == 0, pri > 16:
		return errors.New("invalid priority to PointReleasePriority()")
	}
	return device.Write(&Write{
		ObjectID:      pnt.ObjectID,
		ObjectType:    pnt.ObjectType,
		Prop:          btypes.PropPresentValue,
		WriteNull:     true,
		WritePriority: pri,
	})
}
''')
fn(W, 'func (device *Device) PointDetails(', '''
func (device *Device) PointDetails(pnt *Point) (*PointDetails, error) {
	details := &PointDetails{
		ObjectType: pnt.ObjectType,
		ObjectID:   pnt.ObjectID,
		PointType:  pnt.ObjectType.String(),
	}
	read, err := device.readPoint(pnt, btypes.PropObjectName)
	if err == nil {
		var ok bool
		if ok, details.Name = data.ToStr(read); !ok {
			err = errUnexpectedValue(read)
		}
	}
	if device.isPointBool(pnt) {
		return details, err
	}
	read, unitErr := device.readPoint(pnt, btypes.PropUnits)
	if unitErr == nil {
		if ok, unit := data.ToUint32(read); ok {
			details.Unit = unit
			details.UnitString = units.Unit(unit).String()
		} else {
			unitErr = errUnexpectedValue(read)
		}
	}
	if err == nil && device.isPointFloat(pnt) {
		err = unitErr
	}
	return details, err
}
''')
fn(W, 'func (device *Device) isPointFloat(', '''
func (device *Device) isPointFloat(pnt *Point) bool {
	switch pnt.ObjectType {
	case btypes.AnalogInput, btypes.AnalogOutput, btypes.AnalogValue:
		return true
	}
	return false
}
''')
fn(W, 'func (device *Device) isPointBool(', '''
func (device *Device) isPointBool(pnt *Point) bool {
	t := pnt.ObjectType
	return t == btypes.BinaryInput || t == btypes.BinaryOutput || t == btypes.BinaryValue
}
''')

O = 'network/objects.go'
fn(O, 'func (device *Device) deviceObjectsBuilder(', '''
func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (objectList []btypes.ObjectID, err error) {
	element := func(index uint32) (btypes.PropertyData, error) {
		return device.Read(&Object{
			ObjectID:   deviceID,
			ObjectType: btypes.DeviceType,
			Prop:       btypes.PropObjectList,
			ArrayIndex: index,
		})
	}
	out, err := element(0)
	if err != nil {
		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
		return nil, err
	}
	ok, size := data.ToUint32(out)
	if !ok {
		return nil, fmt.Errorf("unable to get the length of the object list")
	}
	for i := uint32(0); i < size; {
		i++
		out, err := element(i)
		if err != nil {
			return nil, err
		}
		if len(out.Object.Properties) == 0 {
			return nil, fmt.Errorf("no value returned for element %d of the object list", i)
		}
		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
		if !ok {
			return nil, fmt.Errorf("expected element %d of the object list, got %T", i, out.Object.Properties[0].Data)
		}
		objectList = append(objectList, objectID)
	}
	return objectList, nil
}
''')
fn('network/write.go', 'func (device *Device) Write(', '''
func (device *Device) Write(write *Write) error {
	value, err := write.value()
	if err != nil {
		return err
	}
	return device.network.WriteProperty(device.dev, btypes.PropertyData{
		Object: btypes.Object{
			ID: btypes.ObjectID{Type: write.ObjectType, Instance: write.ObjectID},
			Properties: []btypes.Property{{
				Type:       write.Prop,
				ArrayIndex: bacnet.ArrayAll,
				Priority:   btypes.NPDUPriority(write.WritePriority),
				Data:       value,
			}},
		},
	})
}

func (write *Write) value() (interface{}, error) {
	if write.WriteNull {
		return null.Null{}, nil
	}
	switch write.WriteValue.(type) {
	case uint32, float32, float64, string:
		return write.WriteValue, nil
	}
	return nil, fmt.Errorf("unable to handle a type %T", write.WriteValue)
}
''')
sub('network/write.go', '	log "github.com/sirupsen/logrus"\n', '')
fn('network/read.go', 'func (device *Device) Read(', '''
func (device *Device) Read(obj *Object) (out btypes.PropertyData, err error) {
	if obj == nil {
		return out, ObjectNil
	}
	var rp btypes.PropertyData
	rp.Object.ID.Type, rp.Object.ID.Instance = obj.ObjectType, obj.ObjectID
	rp.Object.Properties = append(rp.Object.Properties, btypes.Property{Type: obj.Prop, ArrayIndex: obj.ArrayIndex})
	if out, err = device.network.ReadProperty(device.dev, rp); err != nil {
		log.Errorln("network.Read(): err:", err)
	}
	return out, err
}
''')
S = 'network/store.go'
fn(S, 'func (store *Store) GetNetwork(', '''
func (store *Store) GetNetwork(uuid string) (*Network, error) {
	if found, present := store.get(uuid); present {
		switch n := found.(type) {
		case *Network:
			return n, nil
		}
	}
	return nil, fmt.Errorf("bacnet: no network found with uuid:%s", uuid)
}
''')
fn(S, 'func (store *Store) GetDevice(', '''
func (store *Store) GetDevice(uuid string) (*Device, error) {
	if found, present := store.get(uuid); present {
		switch n := found.(type) {
		case *Device:
			return n, nil
		}
	}
	return nil, fmt.Errorf("bacnet: no device found with uuid:%s", uuid)
}
''')
I = 'network/whois.go'
sub(I, '''	for _, device := range resp {
		details, err := net.GetDeviceDetails(device)
		if err != nil {
			return nil, err
		}
		device.DeviceName = details.Name
		device.VendorName = details.VendorName
		device.MaxApdu = details.MaxApdu
		device.Segmentation = btypes.Enumerated(details.Segmentation)
		devices = append(devices, device)
	}
''', '''	for i := range resp {
		found := resp[i]
		details, err := net.GetDeviceDetails(found)
		if err != nil {
			return nil, err
		}
		found.Segmentation = btypes.Enumerated(details.Segmentation)
		found.MaxApdu = details.MaxApdu
		found.VendorName = details.VendorName
		found.DeviceName = details.Name
		devices = append(devices, found)
	}
''')

# ---- helpers/data: one way to get at the value
H = 'helpers/data/data.go'
s = rd(H)
s = s[:s.index('func ToBitString')] + '''func first(d btypes.PropertyData) interface{} {
	for _, p := range d.Object.Properties {
		return p.Data
	}
	fmt.Println("No value returned")
	return nil
}

'''
for n, t in (('BitString', '*btypes.BitString'), ('Arr', '[]interface{}'), ('Int', 'int'), ('Float32', 'float32'), ('Float64', 'float64'), ('Bool', 'bool'), ('Str', 'string'), ('Uint32', 'uint32')):
    s += f'''func To{n}(d btypes.PropertyData) (ok bool, out {t}) {{
	out, ok = first(d).({t})
	return ok, out
}}

'''
wr(H, s.rstrip('\n') + '\n')

# ---- btypes/bitstring.go
B = 'btypes/bitstring.go'
fn(B, 'func (bs *BitString) GetValue(', '''
func (bs *BitString) GetValue() []bool {
	n := bs.GetBitUsed()
	value := make([]bool, n)
	for n > 0 {
		n--
		value[n] = bs.Bit(n)
	}
	return value
}
''')
fn(B, 'func (bs *BitString) SetBit(', '''
func (bs *BitString) SetBit(bitNumber uint8, value bool) {
	index, mask := bitNumber>>3, byte(1)<<(bitNumber&7)
	if index >= bs.bytesCapacity() {
		return
	}
	if bitNumber >= bs.BitUsed {
		bs.BitUsed = bitNumber + 1
	}
	bs.Value[index] &^= mask
	if value {
		bs.Value[index] |= mask
	}
}
''')

# ---- client services: one exchange for all of them
wr('exchange.go', '''package bacnet

import (
	"fmt"
	"time"

	"github.com/NubeDev/bacnet/btypes"
	"github.com/NubeDev/bacnet/encoding"
)

// header is the network header of a request to a device
func (c *client) header(dest *btypes.Address) *btypes.NPDU {
	n := new(btypes.NPDU)
	n.Version = btypes.ProtocolVersion
	n.Destination = dest
	n.Source = c.dataLink.GetMyAddress()
	n.ExpectingReply = true
	n.Priority = btypes.Normal
	n.HopCount = btypes.DefaultHopCount
	return n
}

// fatal is an answer after which the request is not sent again
type fatal struct{ error }

// exchange sends a request once and gives what follows the header of the answer
func (c *client) exchange(id int, dev btypes.Device, npdu *btypes.NPDU, request []byte, kind btypes.PDUType, service btypes.ServiceConfirmed) (*encoding.Decoder, []byte, error) {
	if _, err := c.Send(dev.Addr, npdu, request, nil); err != nil {
		return nil, nil, err
	}
	raw, err := c.tsm.Receive(id, 5*time.Second)
	if err != nil {
		return nil, nil, fmt.Errorf("unable to receive id %d: %v", id, err)
	}
	if err, failed := raw.(error); failed {
		return nil, nil, fatal{err}
	}
	b, ok := raw.([]byte)
	if !ok {
		return nil, nil, fatal{fmt.Errorf("received unknown datatype %T", raw)}
	}
	var apdu btypes.APDU
	dec := encoding.NewDecoder(b)
	if err := dec.APDU(&apdu); err != nil {
		return nil, b, err
	}
	if apdu.Error.Class != 0 || apdu.Error.Code != 0 {
		return nil, b, fmt.Errorf("received error, class: %d, code: %d", apdu.Error.Class, apdu.Error.Code)
	}
	return dec, b, checkAck(&apdu, kind, service)
}
''')
sub('readmulti.go', '''	npdu := &btypes.NPDU{
		Version:               btypes.ProtocolVersion,
		Destination:           &device.Addr,
		Source:                c.dataLink.GetMyAddress(),
		IsNetworkLayerMessage: false,
		ExpectingReply:        true,
		Priority:              btypes.Normal,
		HopCount:              btypes.DefaultHopCount,
	}
''', '	npdu := c.header(&device.Addr)\n')
sub('readmulti.go', '''	// the value filled doesn't matter. it just needs to be non nil
	err = fmt.Errorf("go")

	for count := 0; err != nil && count < maxReattempt; count++ {
		out, err = c.sendReadMultipleProperty(id, device, npdu, pack)
		if err == nil {
			return out, nil
		}
	}
	return''', '''	for count := maxReattempt; count > 0; count-- {
		if out, err = c.sendReadMultipleProperty(id, device, npdu, pack); err == nil {
			return out, nil
		}
	}
	return''')
fn('readmulti.go', 'func (c *client) sendReadMultipleProperty(', '''
func (c *client) sendReadMultipleProperty(id int, dev btypes.Device, npdu *btypes.NPDU, request []byte) (btypes.MultiplePropertyData, error) {
	var out btypes.MultiplePropertyData
	dec, b, err := c.exchange(id, dev, npdu, request, btypes.ComplexAck, btypes.ServiceConfirmedReadPropMultiple)
	if err != nil {
		return out, err
	}
	if err = dec.ReadMultiplePropertyAck(&out); err != nil {
		c.log.Debugf("WEIRD PACKET: %v: %v", err, b)
	}
	return out, err
}
''')
sub('writemulti.go', '''	npdu := &btypes.NPDU{
		Version:               btypes.ProtocolVersion,
		Destination:           &dev.Addr,
		Source:                c.dataLink.GetMyAddress(),
		IsNetworkLayerMessage: false,
		ExpectingReply:        true,
		Priority:              btypes.Normal,
		HopCount:              btypes.DefaultHopCount,
	}
''', '	npdu := c.header(&dev.Addr)\n')
fn('writemulti.go', 'func (c *client) sendWriteMultipleProperty(', '''
func (c *client) sendWriteMultipleProperty(id int, dev btypes.Device, npdu *btypes.NPDU, request []byte) error {
	_, _, err := c.exchange(id, dev, npdu, request, btypes.SimpleAck, btypes.ServiceConfirmedWritePropMultiple)
	return err
}
''')
s = rd('writeprop.go')
i = s.index('	npdu := &btypes.NPDU{'); j = s.index('	enc := encoding')
s = s[:i] + '	npdu := c.header(&device.Addr)\n' + s[j:]
i = s.index("	// the value filled doesn't")
s = s[:i] + '''	pack := enc.Bytes()
	for try := 1; ; try++ {
		_, _, err = c.exchange(id, device, npdu, pack, btypes.SimpleAck, btypes.ServiceConfirmedWriteProperty)
		if stop, ok := err.(fatal); ok {
			return stop.error
		}
		if err == nil || try == 2 {
			return err
		}
	}
}
'''
wr('writeprop.go', s)

L = 'objectlist.go'
s = rd(L)
i = s.index('	i := 0\n	for i = 0; i < l/scanSize'); j = s.index('func (c *client) objectInformation')
s = s[:i] + '''	for start := 1; start <= l; start += scanSize {
		end := min(start+scanSize-1, l)
		objs, err := c.objectsRange(*dev, start, end)
		if err != nil {
			return fmt.Errorf("unable to retrieve objects between %d and %d: %v", start, end, err)
		}
		objectCopy(dev.Objects, objs)
	}
	return nil
}

''' + s[j:]
wr(L, s)
V = 'whois.go'
sub(V, '''	if low <= 0 {
		low = 0
	}
	if high <= 0 {
		high = 4194304 //max dev id
	}
''', '''	if low < 0 {
		low = 0
	}
	if high < 1 {
		high = 4194304 //max dev id
	}
''')
s = rd(V)
i = s.index('	uniqueMap := make('); 
s = s[:i] + '''	seen := make(map[btypes.ObjectInstance]struct{}, len(values))
	devices := make([]btypes.Device, 0)
	for _, v := range values {
		iam, ok := v.(btypes.IAm)
		if !ok {
			continue
		}
		if _, known := seen[iam.ID.Instance]; known {
			continue
		}
		seen[iam.ID.Instance] = struct{}{}
		devices = append(devices, announced(iam))
	}
	return devices, nil
}

// announced is the device that an I-Am tells about
func announced(r btypes.IAm) btypes.Device {
	dev := btypes.Device{
		DeviceID:      int(r.ID.Instance),
		Addr:          r.Addr,
		ID:            r.ID,
		MaxApdu:       r.MaxApdu,
		Segmentation:  r.Segmentation,
		Vendor:        r.Vendor,
		NetworkNumber: int(r.Addr.Net),
	}
	if len(r.Addr.Adr) > 0 {
		dev.MacMSTP = int(r.Addr.Adr[0])
	}
	if ip, err := r.Addr.UDPAddr(); err == nil {
		dev.Ip, dev.Port = ip.IP.String(), ip.Port
	}
	return dev
}
'''
wr(V, s)
X = 'whatnetwork.go'
s = rd(X)
i = s.index('	if err != nil {\n		fmt.Println(`err`'); 
s = s[:i] + '''	if err != nil {
		fmt.Println(`err`, err)
	}
	for i := range values {
		if n, ok := values[i].(btypes.NPDU); ok && n.Source != nil {
			resp = append(resp, n.Source)
		}
	}
	return resp
}
'''
s = s.replace('	var sendErr error\n', '').replace('_, sendErr = c.Send(', 'c.Send(')
wr(X, s)
