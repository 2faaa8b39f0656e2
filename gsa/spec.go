package main

// The layouts of the EGTS standard (GOST R 54619-2011, GOST 33465/33472) for
// the sections this library implements, written as tables.

import (
	"fmt"
	"go/types"
	"math/big"
)

type bitf struct {
	name string // "" for reserved bits
	w    int
	num  bool // number, not a text of 0 and 1
}

type fld struct {
	kind string // u: unsigned little-endian; flags; time; lat; lon; spd; dir; str: fixed text; bytes; cstr; optcstr; rest
	name string
	n    int    // bytes on the wire
	gate string // present iff this flag is "1"
	bits []bitf // for flags, most significant first
}

type section struct {
	typ  string
	prop string
	f    []fld
}

func u(n int, name string) fld   { return fld{kind: "u", name: name, n: n} }
func opt(gate string, f fld) fld { f.gate = gate; return f }
func flags(bs ...bitf) fld       { return fld{kind: "flags", n: 1, bits: bs} }
func b1(names ...string) []bitf {
	var r []bitf
	for _, n := range names {
		r = append(r, bitf{n, 1, false})
	}
	return r
}

const egtsEpoch = 1262304000 // 2010-01-01T00:00:00Z

var specSections = []section{
	{"SrPosData", "C06", []fld{
		{kind: "time", name: "NavigationTime", n: 4},
		{kind: "lat", name: "Latitude", n: 4},
		{kind: "lon", name: "Longitude", n: 4},
		flags(b1("ALTE", "LOHS", "LAHS", "MV", "BB", "CS", "FIX", "VLD")...),
		{kind: "spd", name: "Speed", n: 2}, // with ALTS and DIRH in bits 14 and 15
		{kind: "dir", name: "Direction", n: 1},
		u(3, "Odometer"),
		u(1, "DigitalInputs"),
		u(1, "Source"),
		opt("ALTE", u(3, "Altitude")),
	}},
	{"SrExtPosData", "C06", []fld{
		flags(bitf{"", 3, false}, bitf{"NavigationSystemFieldExists", 1, false}, bitf{"SatellitesFieldExists", 1, false},
			bitf{"PdopFieldExists", 1, false}, bitf{"HdopFieldExists", 1, false}, bitf{"VdopFieldExists", 1, false}),
		opt("VdopFieldExists", u(2, "VerticalDilutionOfPrecision")),
		opt("HdopFieldExists", u(2, "HorizontalDilutionOfPrecision")),
		opt("PdopFieldExists", u(2, "PositionDilutionOfPrecision")),
		opt("SatellitesFieldExists", u(1, "Satellites")),
		opt("NavigationSystemFieldExists", u(2, "NavigationSystem")),
	}},
	{"SrAdSensorsData", "C06", adSensors()},
	{"SrCountersData", "C06", counters()},
	{"SrStateData", "C06", []fld{
		u(1, "State"), u(1, "MainPowerSourceVoltage"), u(1, "BackUpBatteryVoltage"), u(1, "InternalBatteryVoltage"),
		flags(bitf{"", 5, false}, bitf{"NMS", 1, false}, bitf{"IBU", 1, false}, bitf{"BBU", 1, false}),
	}},
	{"SrLiquidLevelSensor", "C06", []fld{
		flags(bitf{"", 1, false}, bitf{"LiquidLevelSensorErrorFlag", 1, false}, bitf{"LiquidLevelSensorValueUnit", 2, false},
			bitf{"RawDataFlag", 1, false}, bitf{"LiquidLevelSensorNumber", 3, true}),
		u(2, "ModuleAddress"), u(4, "LiquidLevelSensorData"),
	}},
	{"SrAbsCntrData", "C06", []fld{u(1, "CounterNumber"), u(3, "CounterValue")}},
	{"SrAbsAnSensData", "C06", []fld{u(1, "SensorNumber"), u(3, "Value")}},

	{"SrTermIdentity", "C07", []fld{
		u(4, "TerminalIdentifier"),
		flags(b1("MNE", "BSE", "NIDE", "SSRA", "LNGCE", "IMSIE", "IMEIE", "HDIDE")...),
		opt("HDIDE", u(2, "HomeDispatcherIdentifier")),
		opt("IMEIE", fld{kind: "str", name: "IMEI", n: 15}),
		opt("IMSIE", fld{kind: "str", name: "IMSI", n: 16}),
		opt("LNGCE", fld{kind: "str", name: "LanguageCode", n: 3}),
		opt("NIDE", fld{kind: "bytes", name: "NetworkIdentifier", n: 3}),
		opt("BSE", u(2, "BufferSize")),
		opt("MNE", fld{kind: "str", name: "MobileNumber", n: 15}),
	}},
	{"SrModuleData", "C07", []fld{
		u(1, "ModuleType"), u(4, "VendorID"), u(2, "FirmwareVersion"), u(2, "SoftwareVersion"), u(1, "Modification"), u(1, "State"),
		{kind: "cstr", name: "SerialNumber"}, {kind: "cstr", name: "Description"},
	}},
	{"SrAuthInfo", "C07", []fld{
		{kind: "cstr", name: "UserName"}, {kind: "cstr", name: "UserPassword"}, {kind: "optcstr", name: "ServerSequence"},
	}},
	{"SrDispatcherIdentity", "C07", []fld{
		u(1, "DispatcherType"), u(4, "DispatcherID"), {kind: "rest", name: "Description"},
	}},
	{"SrResponse", "C07", []fld{u(2, "ConfirmedRecordNumber"), u(1, "RecordStatus")}},
	{"SrResultCode", "C07", []fld{u(1, "ResultCode")}},
}

func adSensors() []fld {
	var d, a []bitf
	for i := 8; i >= 1; i-- {
		d = append(d, bitf{fmt.Sprintf("DigitalInputsOctetExists%d", i), 1, false})
		a = append(a, bitf{fmt.Sprintf("AnalogSensorFieldExists%d", i), 1, false})
	}
	fs := []fld{flags(d...), u(1, "DigitalOutputs"), flags(a...)}
	for i := 1; i <= 8; i++ {
		fs = append(fs, opt(fmt.Sprintf("DigitalInputsOctetExists%d", i), u(1, fmt.Sprintf("AdditionalDigitalInputsOctet%d", i))))
	}
	for i := 1; i <= 8; i++ {
		fs = append(fs, opt(fmt.Sprintf("AnalogSensorFieldExists%d", i), u(3, fmt.Sprintf("AnalogSensor%d", i))))
	}
	return fs
}

func counters() []fld {
	var d []bitf
	for i := 8; i >= 1; i-- {
		d = append(d, bitf{fmt.Sprintf("CounterFieldExists%d", i), 1, false})
	}
	fs := []fld{flags(d...)}
	for i := 1; i <= 8; i++ {
		fs = append(fs, opt(fmt.Sprintf("CounterFieldExists%d", i), u(3, fmt.Sprintf("Counter%d", i))))
	}
	return fs
}

// subrecord type codes
var specCodes = map[string]int64{
	"SrResponse": 0, "SrTermIdentity": 1, "SrModuleData": 2, "SrDispatcherIdentity": 5, "SrAuthInfo": 7, "SrResultCode": 9,
	"StorageRecord": 15, "SrPosData": 16, "SrExtPosData": 17, "SrAdSensorsData": 18, "SrCountersData": 19, "SrStateData": 21,
	"SrAbsAnSensData": 24, "SrAbsCntrData": 25, "SrLiquidLevelSensor": 27,
}

// ---------------------------------------------------------------- values

// flagText is the text of the w bits of t starting at bit lo.
func flagText(bs []Node) *Str {
	s := &Seq{byts: true}
	for i := len(bs) - 1; i >= 0; i-- {
		s.push(Piece{g: True, v: intBits([]Node{bs[i], False, False, False, True, True, False, False}, false)})
	}
	return &Str{s}
}

func leBits(src Term, pos Lin, n int) []Node {
	var bs []Node
	for i := 0; i < n; i++ {
		bs = append(bs, intTerm(inByte(src, pos.addK(int64(i))), 8, false).bitVec()...)
	}
	return bs
}

func zext(bs []Node, w int) []Node {
	bs = append([]Node(nil), bs...)
	for len(bs) < w {
		bs = append(bs, False)
	}
	return bs[:w]
}

func fieldOf(st *types.Struct, name string) (int, types.Type) {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i).Type()
		}
	}
	return -1, nil
}

// decoded is what the standard says a decoder must deliver for content src.
type decoded struct {
	fields map[string]Val
	total  Lin  // bytes the layout occupies
	extra  Node // further conditions for well-formed content (delimiters)
	gates  map[string]Node
}

func (s *section) decode(st *types.Struct, src Term) (*decoded, error) {
	return s.decodeAt(st, src, lk(0))
}

// decodeAt is decode for a layout that starts at base; total is where it ends.
func (s *section) decodeAt(st *types.Struct, src Term, base Lin) (*decoded, error) {
	d := &decoded{fields: map[string]Val{}, total: base, extra: True, gates: map[string]Node{}}
	pos := base
	end := lenTerm(src)
	for _, f := range s.f {
		g := True
		if f.gate != "" {
			g = d.gates[f.gate]
		}
		put := func(name string, v Val) error {
			i, t := fieldOf(st, name)
			if i < 0 {
				return fmt.Errorf("%s has no field %s", s.typ, name)
			}
			d.fields[name] = iteVal(g, v, zeroVal(t))
			return nil
		}
		num := func(name string, bs []Node) error {
			_, t := fieldOf(st, name)
			if t == nil {
				return fmt.Errorf("%s has no field %s", s.typ, name)
			}
			w, sgn := intType(t)
			if w < len(bs) {
				return fmt.Errorf("%s.%s is too narrow", s.typ, name)
			}
			return put(name, intBits(zext(bs, w), sgn))
		}
		var err error
		switch f.kind {
		case "u":
			err = num(f.name, leBits(src, pos, f.n))
		case "flags":
			bs := leBits(src, pos, 1)
			at := 8
			for _, b := range f.bits {
				at -= b.w
				if b.name == "" {
					continue
				}
				sub := bs[at : at+b.w]
				if b.num {
					err = num(b.name, sub)
				} else {
					d.gates[b.name] = sub[0]
					err = put(b.name, flagText(sub))
				}
				if err != nil {
					return nil, err
				}
			}
		case "time":
			v := intBits(leBits(src, pos, 4), false).asLin()
			err = put(f.name, &TimeV{v.addK(egtsEpoch).scale(1000000000)})
		case "lat", "lon":
			k := int64(90)
			if f.kind == "lon" {
				k = 180
			}
			err = put(f.name, &Float{r: big.NewRat(k, 0xFFFFFFFF), base: intBits(leBits(src, pos, 4), false), neg: False})
		case "spd":
			bs := leBits(src, pos, 2)
			q, _ := divLin(intBits(zext(bs[:14], 16), false).asLin(), 10, True)
			if err = put(f.name, intL(q, 16, false)); err == nil {
				if err = num("DirectionHighestBit", bs[15:]); err == nil {
					err = num("AltitudeSign", bs[14:15])
				}
			}
		case "dir":
			bs := leBits(src, pos, 1)
			h := leBits(src, pos.addK(-1), 1)[7]
			bs[7] = Or(bs[7], h)
			err = num(f.name, bs)
		case "str":
			err = put(f.name, &Str{segSeq(src, pos, lk(int64(f.n)), true, types.Typ[types.Uint8])})
		case "bytes":
			d.fields[f.name] = (&Seq{byts: true}).concat(&Seq{byts: true, ps: []Piece{{g: g, src: src, off: pos, n: lk(int64(f.n))}}})
		case "rest":
			err = put(f.name, &Str{segSeq(src, pos, end.sub(pos), true, types.Typ[types.Uint8])})
			pos = pos.add(mkMax0(end.sub(pos)))
		case "cstr", "optcstr":
			// up to the first zero byte; an optional text is there if anything is left
			if f.kind == "optcstr" {
				g = And(g, mkGE(end.sub(pos).addK(-1)))
			}
			n := lt(idxTerm(src, pos, 0))
			err = put(f.name, &Str{segSeq(src, pos, n, true, types.Typ[types.Uint8])})
			pos = pos.add(n.addK(1).gate(g))
		default:
			return nil, fmt.Errorf("kind %s", f.kind)
		}
		if err != nil {
			return nil, err
		}
		pos = pos.add(lk(int64(f.n)).gate(g))
	}
	d.total = pos
	return d, nil
}

// wf is a well-formed value of the section: flags are texts of 0 and 1,
// numbers fit their fields.
type wf struct {
	val    *StructV
	rope   *Seq // its encoding
	fields map[string]Val
	noZero map[Term]bool
	facts  []Lin
}

func (s *section) wellFormed(named *types.Named, key string, I *Interp, st *State) (*wf, error) {
	str, ok := named.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("%s is not a struct", s.typ)
	}
	w := &wf{rope: &Seq{byts: true}, fields: map[string]Val{}, noZero: map[Term]bool{}}
	gates := map[string]Node{}
	v := &StructV{typ: str, nam: named}
	for i := 0; i < str.NumFields(); i++ {
		v.f = append(v.f, symVal(str.Field(i).Type(), key+"?"+str.Field(i).Name(), key+"."+str.Field(i).Name()))
	}
	w.val = v
	put := func(name string, x Val) error {
		i, _ := fieldOf(str, name)
		if i < 0 {
			return fmt.Errorf("%s has no field %s", s.typ, name)
		}
		v.f[i] = x
		w.fields[name] = x
		return nil
	}
	num := func(name string, bits int, hi int64) (*Int, error) {
		_, t := fieldOf(str, name)
		if t == nil {
			return nil, fmt.Errorf("%s has no field %s", s.typ, name)
		}
		wd, sgn := intType(t)
		if wd == 0 {
			return nil, fmt.Errorf("%s.%s is not an integer", s.typ, name)
		}
		lo := int64(0)
		if hi < 0 {
			hi = int64(1)<<uint(bits) - 1
		}
		if sgn && bits == wd {
			lo, hi = typeRange(wd, true)
		}
		x := intTerm(intern("fld", key+"."+name, wd, lo, hi, t, nil), wd, sgn)
		return x, put(name, x)
	}
	bitsOf := func(name string, n int) []Node {
		var bs []Node
		t := intern("flag", key+"."+name, n, 0, int64(1)<<uint(n)-1, nil, nil)
		for i := 0; i < n; i++ {
			bs = append(bs, bitAtom(t, i))
		}
		return bs
	}
	// flags first: gates must be known
	for _, f := range s.f {
		if f.kind != "flags" {
			continue
		}
		for _, b := range f.bits {
			if b.name == "" || b.num {
				continue
			}
			bs := bitsOf(b.name, b.w)
			gates[b.name] = bs[0]
			if err := put(b.name, flagText(bs)); err != nil {
				return nil, err
			}
		}
	}
	for _, f := range s.f {
		g := True
		if f.gate != "" {
			g = gates[f.gate]
		}
		addBits := func(bs []Node) {
			for i := 0; i+8 <= len(bs); i += 8 {
				w.rope.push(Piece{g: g, v: intBits(append([]Node(nil), bs[i:i+8]...), false)})
			}
		}
		switch f.kind {
		case "u":
			x, err := num(f.name, 8*f.n, -1)
			if err != nil {
				return nil, err
			}
			addBits(x.bitVec()[:8*f.n])
		case "flags":
			bs := make([]Node, 8)
			at := 8
			for _, b := range f.bits {
				at -= b.w
				for i := 0; i < b.w; i++ {
					bs[at+i] = False
				}
				if b.name == "" {
					continue
				}
				if b.num {
					x, err := num(b.name, b.w, -1)
					if err != nil {
						return nil, err
					}
					copy(bs[at:], x.bitVec()[:b.w])
				} else {
					copy(bs[at:], bitsOf(b.name, b.w))
				}
			}
			addBits(bs)
		case "time":
			t := intern("fld", key+"."+f.name+"#sec", 32, 0, 1<<32-1, nil, nil)
			if err := put(f.name, &TimeV{lt(t).addK(egtsEpoch).scale(1000000000)}); err != nil {
				return nil, err
			}
			addBits(intTerm(t, 32, false).bitVec())
		case "lat", "lon":
			k := int64(90)
			if f.kind == "lon" {
				k = 180
			}
			_, t := fieldOf(str, f.name)
			if t == nil {
				return nil, fmt.Errorf("%s has no field %s", s.typ, f.name)
			}
			// a coordinate that the wire can represent: k * n / 0xFFFFFFFF
			n := intern("fld", key+"."+f.name+"#raw", 32, 0, 1<<32-1, nil, nil)
			if err := put(f.name, &Float{r: big.NewRat(k, 0xFFFFFFFF), base: intTerm(n, 32, false), neg: False}); err != nil {
				return nil, err
			}
			addBits(intTerm(n, 32, false).bitVec())
		case "spd":
			x, err := num(f.name, 16, 1638)
			if err != nil {
				return nil, err
			}
			dh, err := num("DirectionHighestBit", 1, -1)
			if err != nil {
				return nil, err
			}
			as, err := num("AltitudeSign", 1, -1)
			if err != nil {
				return nil, err
			}
			bs := intL(x.asLin().scale(10), 16, false).bitVec()
			bs = append(append([]Node(nil), bs[:14]...), as.bitVec()[0], dh.bitVec()[0])
			addBits(bs)
		case "dir":
			x, err := num(f.name, 8, -1)
			if err != nil {
				return nil, err
			}
			dh := bitAtom(intern("fld", key+".DirectionHighestBit", 8, 0, 1, nil, nil), 0)
			bs := append([]Node(nil), x.bitVec()...)
			bs[7] = And(bs[7], Not(dh))
			addBits(bs)
		case "str", "cstr", "optcstr", "rest":
			i, _ := fieldOf(str, f.name)
			if i < 0 {
				return nil, fmt.Errorf("%s has no field %s", s.typ, f.name)
			}
			src := intern("str", key+"."+f.name, 0, 0, 0, types.Typ[types.String], nil)
			n := lenTerm(src)
			if f.kind == "str" {
				n = lk(int64(f.n))
			}
			seg := &Seq{byts: true, ps: []Piece{{g: True, src: src, off: lk(0), n: n}}}
			if err := put(f.name, &Str{seg}); err != nil {
				return nil, err
			}
			switch f.kind {
			case "str", "rest":
				w.rope.push(Piece{g: g, src: src, off: lk(0), n: n})
			case "cstr":
				w.noZero[src] = true
				w.rope.push(Piece{g: g, src: src, off: lk(0), n: n})
				w.rope.push(Piece{g: g, v: intK(0, 8, false)})
			case "optcstr":
				w.noZero[src] = true
				has := mkGE(n.addK(-1))
				w.rope.push(Piece{g: And(g, has), src: src, off: lk(0), n: n})
				w.rope.push(Piece{g: And(g, has), v: intK(0, 8, false)})
			}
		case "bytes":
			i, t := fieldOf(str, f.name)
			if i < 0 {
				return nil, fmt.Errorf("%s has no field %s", s.typ, f.name)
			}
			sl := symSlice(t, key+"."+f.name, key+"."+f.name)
			ps := symSeqs[sl.obj.id]
			ps = &Seq{byts: true, ps: []Piece{{g: True, src: ps.ps[0].src, off: lk(0), n: lk(int64(f.n))}}}
			symSeqs[sl.obj.id] = ps
			sl = &Slice{obj: sl.obj, off: lk(0), n: lk(int64(f.n)), cap: lk(int64(f.n)), elt: sl.elt, nilG: False}
			if err := put(f.name, sl); err != nil {
				return nil, err
			}
			w.fields[f.name] = ps
			w.rope.push(Piece{g: g, src: ps.ps[0].src, off: lk(0), n: lk(int64(f.n))})
		}
	}
	return w, nil
}

// mkMax0 is l where l is positive, else 0.
func mkMax0(l Lin) Lin { return l.gate(mkGE(l)) }
