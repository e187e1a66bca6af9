package engine

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"path"
	"regexp"
	"strings"
	"unicode/utf8"

	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"

	"verifsim/rt"
)

// Near says that the code of a declaration must mention another name: in one
// line (a member and its type) or in one block.
type Near struct{ Kind, A, B string }

// Comp is one top-level component of a schema document.
type Comp struct {
	Text   string
	Tokens []string    `json:",omitempty"` // names that must show up in the generated code
	Pairs  [][2]string `json:",omitempty"` // members that must get the same type
	Near   []Near      `json:",omitempty"` // what must be mentioned together
	Uses   []string    `json:",omitempty"` // files whose definitions it uses
	Far    []string    `json:",omitempty"` // files it needs through includes of includes
	Alias  string      `json:",omitempty"` // name of the simple type it defines, usable from elsewhere
	Base   string      `json:",omitempty"` // its built-in type
	Def    string      `json:",omitempty"` // kind of the definition others may refer to, if not a simple type
	Name   string      `json:",omitempty"` // its name
}

// Ref is an import or include.
type Ref struct {
	NS, Prefix string `json:",omitempty"`
	Loc        string
	Path       string `json:",omitempty"` // absolute path of the target, "" if it is missing or remote
	Include    bool   `json:",omitempty"`
	LocFirst   bool   `json:",omitempty"` // the location is written before the namespace
}

// Doc is a schema document, kept in parts so that it can be shrunk.
type Doc struct {
	P     string // prefix of the schema namespace, with colon, or ""
	TNS   string `json:",omitempty"`
	Self  string `json:",omitempty"` // prefix bound to TNS, with colon, or ""
	Refs  []Ref  `json:",omitempty"`
	Comps []Comp
	Enc   string `json:",omitempty"` // declared encoding, "" none
	Label string `json:",omitempty"` // another name of it, to be declared
	Decl  bool   `json:",omitempty"`
	BOM   bool   `json:",omitempty"`
	CRLF  bool   `json:",omitempty"`
	Pad   int    `json:",omitempty"` // bytes of comment between components
	PadK  int    `json:",omitempty"`
	Attr  string `json:",omitempty"`
	Doced bool   `json:",omitempty"` // includes carry annotations
	Form  int    `json:",omitempty"` // how the markup is written, see dress
}

var attrEscaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", "'", "&apos;", "\"", "&quot;")

// Text renders the document, without encoding.
func (d *Doc) Text() string {
	var b strings.Builder
	if d.Decl {
		enc := d.Enc
		if enc == "" {
			enc = "UTF-8"
		} else if d.Label != "" {
			enc = d.Label
		} else if strings.HasPrefix(enc, "UTF-16") {
			enc = "UTF-16"
		}
		fmt.Fprintf(&b, "<?xml version=\"1.0\" encoding=\"%s\"?>\n", enc)
	}
	xmlns := "xmlns"
	if d.P != "" {
		xmlns = "xmlns:" + strings.TrimSuffix(d.P, ":")
	}
	fmt.Fprintf(&b, "<%sschema %s=\"http://www.w3.org/2001/XMLSchema\"", d.P, xmlns)
	if d.TNS != "" {
		fmt.Fprintf(&b, " targetNamespace=\"%s\"", d.TNS)
		if d.Self != "" {
			fmt.Fprintf(&b, " xmlns:%s=\"%s\"", strings.TrimSuffix(d.Self, ":"), d.TNS)
		} else if d.P != "" {
			fmt.Fprintf(&b, " xmlns=\"%s\"", d.TNS)
		}
	}
	for _, r := range d.Refs {
		if !r.Include && r.Prefix != "" {
			fmt.Fprintf(&b, " xmlns:%s=\"%s\"", r.Prefix, r.NS)
		}
	}
	b.WriteString(d.Attr + ">\n")
	for _, r := range d.Refs {
		r.Loc = attrEscaper.Replace(r.Loc)
		if r.Include && d.Doced {
			fmt.Fprintf(&b, "  <%sinclude schemaLocation=\"%s\" id=\"i%d\"><%sannotation><%sdocumentation>included</%sdocumentation></%sannotation></%sinclude>\n", d.P, r.Loc, len(r.Loc), d.P, d.P, d.P, d.P, d.P)
		} else if r.Include {
			fmt.Fprintf(&b, "  <%sinclude schemaLocation=\"%s\"/>\n", d.P, r.Loc)
		} else if r.Loc == "" {
			fmt.Fprintf(&b, "  <%simport namespace=\"%s\"/>\n", d.P, r.NS)
		} else if r.NS == "" {
			fmt.Fprintf(&b, "  <%simport schemaLocation=\"%s\"/>\n", d.P, r.Loc)
		} else if r.LocFirst {
			fmt.Fprintf(&b, "  <%simport schemaLocation=\"%s\" namespace=\"%s\"/>\n", d.P, r.Loc, r.NS)
		} else {
			fmt.Fprintf(&b, "  <%simport namespace=\"%s\" schemaLocation=\"%s\"/>\n", d.P, r.NS, r.Loc)
		}
	}
	for i, c := range d.Comps {
		if d.Pad > 0 && (i == 0 || d.PadK > 0 && i%d.PadK == 0) {
			b.WriteString("  <!-- " + strings.Repeat("padding ", d.Pad/8+1)[:d.Pad] + "-->\n")
		}
		b.WriteString(c.Text)
	}
	fmt.Fprintf(&b, "</%sschema>\n", d.P)
	s := b.String()
	if d.Form != 0 {
		s = dress(s, d.Form)
	}
	if d.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return s
}

var (
	emptyTag = regexp.MustCompile(`<([\w:]+)((?: [\w:]+="[^"]*")*)/>`)
	attrText = regexp.MustCompile(` ([\w:]+)="([^"']*)"`)
	tagEnd   = regexp.MustCompile(`>\n`)
)

// dress writes the same document in another way.
func dress(s string, form int) string {
	head := ""
	if strings.HasPrefix(s, "<?") {
		i := strings.Index(s, "?>") + 2
		head, s = s[:i], s[i:]
	}
	if form&1 != 0 { // <a/> as <a></a>
		s = emptyTag.ReplaceAllString(s, "<$1$2></$1>")
	}
	if form&2 != 0 {
		s = attrText.ReplaceAllString(s, ` $1='$2'`)
	}
	if form&4 != 0 {
		s = strings.ReplaceAll(attrText.ReplaceAllString(s, "\n\t  $1 = \"$2\""), "/>", " />")
	}
	if form&8 != 0 { // comments and instructions everywhere
		n := 0
		s = tagEnd.ReplaceAllStringFunc(s, func(m string) string {
			n++
			switch n % 5 {
			case 0:
				return "><!-- <element name=\"a\"> & -->\n"
			case 2:
				return "><?app <x> ?>\n"
			case 3:
				return ">\n\n\n"
			}
			return m
		})
	}
	if form&16 != 0 { // no space between tags
		s = strings.ReplaceAll(tagEnd.ReplaceAllString(s, ">"), ">  <", "><")
	}
	return head + s
}

// Bytes renders and encodes the document.
func (d *Doc) Bytes() []byte {
	s := d.Text()
	var out []byte
	var err error
	switch d.Enc {
	case "ISO-8859-1":
		out, err = charmap.ISO8859_1.NewEncoder().Bytes([]byte(s))
	case "windows-1252":
		out, err = charmap.Windows1252.NewEncoder().Bytes([]byte(s))
	case "KOI8-R":
		out, err = charmap.KOI8R.NewEncoder().Bytes([]byte(s))
	case "ISO-8859-2":
		out, err = charmap.ISO8859_2.NewEncoder().Bytes([]byte(s))
	case "ISO-8859-15":
		out, err = charmap.ISO8859_15.NewEncoder().Bytes([]byte(s))
	case "windows-1251":
		out, err = charmap.Windows1251.NewEncoder().Bytes([]byte(s))
	case "EUC-JP":
		out, err = japanese.EUCJP.NewEncoder().Bytes([]byte(s))
	case "EUC-KR":
		out, err = korean.EUCKR.NewEncoder().Bytes([]byte(s))
	case "Big5":
		out, err = traditionalchinese.Big5.NewEncoder().Bytes([]byte(s))
	case "Shift_JIS":
		out, err = japanese.ShiftJIS.NewEncoder().Bytes([]byte(s))
	case "UTF-16LE":
		out, err = unicode.UTF16(unicode.LittleEndian, unicode.UseBOM).NewEncoder().Bytes([]byte(s))
	case "UTF-16BE":
		out, err = unicode.UTF16(unicode.BigEndian, unicode.UseBOM).NewEncoder().Bytes([]byte(s))
	case "GBK":
		out, err = simplifiedchinese.GBK.NewEncoder().Bytes([]byte(s))
	default:
		out = []byte(s)
	}
	if err != nil {
		panic(fmt.Sprintf("workload: %v", err))
	}
	if d.BOM {
		out = append([]byte("\xef\xbb\xbf"), out...)
	}
	return out
}

// nonASCII is text that the encoding can carry.
var nonASCII = map[string]string{
	"": "žluťoučký кůň 漢字 € 😀", "UTF-8": "žluťoučký кůň 漢字 € 😀", "utf-8": "größer 漢字 é", "ISO-8859-1": "größer é à ñ", "windows-1252": "größer é “quoted”",
	"ISO-8859-2": "žluťoučký kůň", "ISO-8859-15": "größer €", "windows-1251": "привет мир", "EUC-JP": "日本語テスト表", "EUC-KR": "한국어 시험", "Big5": "中文測試",
	"KOI8-R": "привет мир", "Shift_JIS": "日本語テスト表", "GBK": "中文测试", "US-ASCII": "plain",
}

// nameTail are letters for names in each encoding.
var nameTail = map[string]string{
	"": "éжß", "UTF-16LE": "éжß", "UTF-16BE": "éжß", "UTF-8": "éжß", "utf-8": "éжß", "ISO-8859-1": "éßü", "windows-1252": "éßü", "KOI8-R": "жщю", "ISO-8859-2": "éřů", "ISO-8859-15": "éßü", "windows-1251": "жщю", "EUC-JP": "日本", "EUC-KR": "한국", "Big5": "中文", "Shift_JIS": "日本", "GBK": "中文", "US-ASCII": "x",
}

var builtins = []string{"string", "int", "boolean", "date", "dateTime", "decimal", "long", "token", "base64Binary", "double", "float", "short", "time", "anyURI", "positiveInteger", "unsignedByte", "NMTOKENS", "gYear", "hexBinary", "unsignedInt", "ID"}

// strong are built-in types whose generated types differ from a plain name
// and (mostly) from each other, so that a weaker type shows.
var strong = []string{"int", "boolean", "decimal", "long", "double", "float", "short", "unsignedInt", "dateTime", "token", "base64Binary"}

// File is a generated file of the workload.
type File struct {
	Path   string
	Doc    *Doc   `json:",omitempty"`
	Raw    []byte `json:",omitempty"`
	Dir    bool   `json:",omitempty"`
	Link   string `json:",omitempty"`
	Cut    int    `json:",omitempty"` // keep so many bytes (from the render); 0 all
	Damage []Dmg  `json:",omitempty"`
	Mode   int    `json:",omitempty"`
	Stamp  int64  `json:",omitempty"` // time of modification, in seconds; 0: when it is put in place
	Hard   string `json:",omitempty"` // another name of this file, which comes before
	Via    string `json:",omitempty"` // the path is a symbolic link to the file of this name
}

// Dmg is damage to stored bytes.
type Dmg struct {
	Kind     string // flip, zero, drop, dup, swap, trunc, splice, insert
	Off, Len int
	Arg      int
	Text     bin `json:",omitempty"`
}

// bin is text that may not be valid UTF-8; JSON keeps it.
type bin string

func (t bin) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(t)) {
		return json.Marshal(string(t))
	}
	return json.Marshal([]string{base64.StdEncoding.EncodeToString([]byte(t))})
}

func (t *bin) UnmarshalJSON(b []byte) error {
	var s string
	if json.Unmarshal(b, &s) == nil {
		*t = bin(s)
		return nil
	}
	var l []string
	if err := json.Unmarshal(b, &l); err != nil || len(l) != 1 {
		return errors.New("bad text")
	}
	d, err := base64.StdEncoding.DecodeString(l[0])
	*t = bin(d)
	return err
}

// Bytes is the stored content.
func (f *File) Bytes() []byte {
	b := f.Raw
	if f.Doc != nil {
		b = f.Doc.Bytes()
	}
	if f.Cut > 0 && f.Cut < len(b) {
		b = b[:f.Cut]
	}
	for _, d := range f.Damage {
		b = d.apply(b)
	}
	return b
}

func (d Dmg) apply(b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b
	}
	off := d.Off % len(b)
	end := off + d.Len
	if end > len(b) {
		end = len(b)
	}
	switch d.Kind {
	case "flip":
		b[off] ^= byte(1 << (d.Arg % 8))
	case "set":
		b[off] = byte(d.Arg)
	case "zero":
		for i := off; i < end; i++ {
			b[i] = 0
		}
	case "drop":
		b = append(b[:off:off], b[end:]...)
	case "dup":
		t := append([]byte(nil), b[off:end]...)
		b = append(b[:end:end], append(t, b[end:]...)...)
	case "swap":
		to := d.Arg % len(b)
		n := end - off
		if to+n > len(b) {
			n = len(b) - to
		}
		if to < off && to+n > off || off <= to && off+n > to {
			return b
		}
		for i := 0; i < n; i++ {
			b[off+i], b[to+i] = b[to+i], b[off+i]
		}
	case "trunc":
		b = b[:off]
	case "insert":
		b = append(b[:off:off], append([]byte(d.Text), b[off:]...)...)
	case "replace":
		b = append(b[:off:off], append([]byte(d.Text), b[end:]...)...)
	}
	return b
}

// ---- generator

type gen struct {
	r     *rt.Rng
	used  map[string]bool
	enc   string
	style bool // vary the style of names
	docs  bool
	kinds []string

	docTok string // a word of the last documentation
}

func newGen(r *rt.Rng) *gen { return &gen{r: r, used: map[string]bool{}} }

// tok returns a new name; all are seven letters and unique in the run.
func (g *gen) tok() string {
	const l = "abcdefghijklmnoprstuvwxy"
	for {
		b := []byte("Qz12345")
		for i := 2; i < 7; i++ {
			b[i] = l[g.r.Intn(len(l))]
		}
		if s := string(b); !g.used[s] {
			g.used[s] = true
			return s
		}
	}
}

// name dresses a token up.
func (g *gen) name(t string) string {
	if !g.style {
		return t
	}
	switch g.r.Intn(9) {
	case 0:
		return strings.ToLower(t)
	case 1:
		return "qz-" + t[2:]
	case 2:
		return "qz_" + t[2:]
	case 3:
		return "qz." + t[2:]
	case 4:
		return t + nameTail[g.enc]
	}
	return t
}

func (g *gen) pick(s []string) string { return s[g.r.Intn(len(s))] }

func (g *gen) doc(p string) string {
	if !g.docs || g.r.OneIn(2) {
		return ""
	}
	txt := g.pick([]string{"plain text", "two\n      lines of text", "with &amp; entity &lt;tag&gt;", "<![CDATA[cdata <b> text]]>", nonASCII[g.enc], strings.Repeat("long "+nonASCII[g.enc]+" ", 3+g.r.Intn(30)*(1+g.r.Intn(2)*g.r.Intn(2)*g.r.Intn(20)))})
	g.docTok = g.tok()
	if txt = strings.TrimSpace(txt) + " " + g.docTok; g.r.OneIn(6) {
		txt = " " + txt + "\n  "
	}
	return fmt.Sprintf("<%sannotation><%sdocumentation>%s</%sdocumentation></%sannotation>", p, p, txt, p, p)
}

// sharesOutput tells that the output of p is that of one of names: because
// only the extension of the output language tells them apart, or because the
// input directory as given leads from the output directory to the copy of a
// directory of the same name (see DESIGN.md).
func sharesOutput(names map[string]bool, base, p string) bool {
	for _, e := range exts {
		if names[p+e] || strings.HasSuffix(p, e) && names[strings.TrimSuffix(p, e)] {
			return true
		}
	}
	rel := strings.TrimPrefix(p, base+"/")
	in := path.Base(base) + "/"
	return names[path.Join(base, in, rel)] || strings.HasPrefix(rel, in) && names[path.Join(base, rel[len(in):])]
}

// typeRef names a type some member may have.
type typeRef struct {
	q    string // as written in the attribute
	base string // built-in behind it, "" if none
	file string // where it comes from, "" this one
	via  string // files that lead there, separated by blanks

	named bool // the name shows up in the type of a member
}

// defRef names a definition that is no simple type.
type defRef struct {
	q, kind, base, file string
	far                 bool // in another file
}

type docGen struct {
	g       *gen
	d       *Doc
	path    string
	local   []typeRef // types of this file
	ext     []typeRef // types of other files
	refs    []defRef  // other definitions of other files
	paired  map[string]bool
	nested  bool
	extOnly bool
}

func (x *docGen) anyType() typeRef {
	g := x.g
	n := g.r.Intn(10)
	if len(x.ext) > 0 && n < 4 {
		return x.ext[g.r.Intn(len(x.ext))]
	}
	if len(x.local) > 0 && n < 6 {
		return x.local[g.r.Intn(len(x.local))]
	}
	b := g.pick(builtins)
	return typeRef{q: x.d.P + b, base: b}
}

// elemType is a type an element may have.
func (x *docGen) elemType() typeRef {
	if len(x.refs) > 0 && x.g.r.OneIn(5) {
		if d := x.refs[x.g.r.Intn(len(x.refs))]; d.kind == "complexType" {
			t := typeRef{q: d.q, named: true}
			if d.far {
				t.file = d.file
			}
			return t
		}
	}
	return x.anyType()
}

// editFile is another version of a schema: a simple type gets another base,
// a component comes or goes, or the document is cut short. The receiver's
// generator makes the new names.
func (g *gen) editFile(f *File) *File {
	if f.Doc == nil {
		return nil
	}
	e := *f
	d := *f.Doc
	e.Doc = &d
	d.Comps = append([]Comp(nil), d.Comps...)
	g.enc = d.Enc
	switch g.r.Intn(7) {
	case 5, 6: // the size stays the same
		for i := range d.Comps {
			c := &d.Comps[i]
			for k, t := range c.Tokens {
				if n := g.tok(); c.Alias == "" && c.Def == "" && len(c.Pairs)+len(c.Near) == 0 && len(t) == len(n) && strings.Count(c.Text, t) == 1 && strings.Contains(c.Text, " name=\""+t+"\"") {
					c.Tokens = append([]string(nil), c.Tokens...)
					c.Tokens[k] = n
					c.Text = strings.Replace(c.Text, t, n, 1)
				}
			}
		}
		for i := range d.Comps {
			if c := &d.Comps[i]; c.Alias != "" && len(sameLen(c.Base)) > 0 {
				c.rebase(g.pick(sameLen(c.Base)))
			}
		}
	case 0, 1:
		for i := range d.Comps {
			if c := &d.Comps[i]; c.Alias != "" {
				c.rebase(g.pick(strong))
			}
		}
	case 2:
		x := &docGen{g: g, d: &d, path: f.Path, paired: map[string]bool{}}
		x.comp()
	case 3:
		var keep []Comp
		for _, c := range d.Comps {
			if c.Alias != "" || c.Def != "" || g.r.OneIn(2) {
				keep = append(keep, c)
			}
		}
		d.Comps = keep
	case 4:
		lo, hi := schemaSpan(f.Bytes())
		e.Cut = lo + g.r.Intn(hi-lo)
	}
	return &e
}

// rebase gives the type another built-in type.
func (c *Comp) rebase(b string) {
	c.Text = strings.Replace(c.Text, ":"+c.Base+"\"", ":"+b+"\"", 1)
	c.Text = strings.Replace(c.Text, "\""+c.Base+"\"", "\""+b+"\"", 1)
	c.Base = b
}

// stamped gives all files the same time of modification.
func stamped(at int64, fs []*File) []*File {
	var out []*File
	for _, f := range fs {
		c := *f
		c.Stamp = at
		out = append(out, &c)
	}
	return out
}

// sameLen lists the types whose names have the length of t's.
func sameLen(t string) (l []string) {
	for _, s := range strong {
		if len(s) == len(t) && s != t {
			l = append(l, s)
		}
	}
	return
}

// define adds a definition that others may refer to.
func (x *docGen) define() {
	g, P := x.g, x.d.P
	t, m, b := g.tok(), g.tok(), g.pick(strong)
	c := Comp{Tokens: []string{t, m}, Name: t, Base: b, Def: g.pick([]string{"element", "element", "attribute", "complexType", "group", "attributeGroup", "listType", "unionType"})}
	switch c.Def {
	case "listType":
		c.Tokens = c.Tokens[:1]
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\"><%slist itemType=\"%s%s\"/></%ssimpleType>\n", P, t, P, P, b, P)
	case "unionType":
		c.Tokens = c.Tokens[:1]
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\"><%sunion memberTypes=\"%s%s %sanyURI\"/></%ssimpleType>\n", P, t, P, P, b, P, P)
	case "element", "attribute":
		c.Tokens = c.Tokens[:1]
		c.Text = fmt.Sprintf("  <%s%s name=\"%s\" type=\"%s%s\"/>\n", P, c.Def, t, P, b)
	case "complexType", "group":
		c.Text = fmt.Sprintf("  <%s%s name=\"%s\"><%ssequence><%selement name=\"%s\" type=\"%s%s\"/></%ssequence></%s%s>\n", P, c.Def, t, P, P, m, P, b, P, P, c.Def)
	case "attributeGroup":
		c.Text = fmt.Sprintf("  <%s%s name=\"%s\"><%sattribute name=\"%s\" type=\"%s%s\"/></%s%s>\n", P, c.Def, t, P, m, P, b, P, c.Def)
	}
	x.d.Comps = append(x.d.Comps, c)
}

// refer defines a complex type that refers to definitions, mostly of other
// files; a referred element or attribute has a neighbour of the same type.
func (x *docGen) refer() {
	g, P := x.g, x.d.P
	n := g.tok()
	c := Comp{Tokens: []string{n}}
	var el, at strings.Builder
	base := ""
	for _, d := range x.refs {
		if g.r.OneIn(3) || d.kind == "complexType" && base != "" {
			continue
		}
		if d.far {
			c.Uses = append(c.Uses, d.file)
		}
		switch d.kind {
		case "element":
			m := g.tok()
			c.Tokens = append(c.Tokens, m)
			oc := g.pick([]string{"", "", x.occurs()})
			fmt.Fprintf(&el, "<%selement ref=\"%s\"%s/><%selement name=\"%s\" type=\"%s%s\"%s/>", P, d.q, oc, P, m, P, d.base, oc)
			if t := d.q[strings.IndexByte(d.q, ':')+1:]; d.far && !x.paired[t] {
				x.paired[t] = true
				c.Pairs = append(c.Pairs, [2]string{t, m})
			}
		case "attribute":
			m := g.tok()
			c.Tokens = append(c.Tokens, m)
			fmt.Fprintf(&at, "<%sattribute ref=\"%s\"/><%sattribute name=\"%s\" type=\"%s%s\"/>", P, d.q, P, m, P, d.base)
			if t := d.q[strings.IndexByte(d.q, ':')+1:]; d.far && !x.paired[t] {
				x.paired[t] = true
				c.Pairs = append(c.Pairs, [2]string{t, m})
			}
		case "listType", "unionType":
			m := g.tok()
			c.Tokens = append(c.Tokens, m)
			c.Near = append(c.Near, Near{"line", m, local(d.q)})
			if g.r.OneIn(3) {
				fmt.Fprintf(&at, "<%sattribute name=\"%s\" type=\"%s\"/>", P, m, d.q)
			} else {
				fmt.Fprintf(&el, "<%selement name=\"%s\" type=\"%s\"%s/>", P, m, d.q, g.pick([]string{"", x.occurs()}))
			}
		case "group":
			c.Near = append(c.Near, Near{"group", n, local(d.q)})
			fmt.Fprintf(&el, "<%sgroup ref=\"%s\"%s/>", P, d.q, g.pick([]string{"", x.occurs()}))
		case "attributeGroup":
			c.Near = append(c.Near, Near{"attributeGroup", n, local(d.q)})
			fmt.Fprintf(&at, "<%sattributeGroup ref=\"%s\"/>", P, d.q)
		case "complexType":
			base = d.q
			c.Near = append(c.Near, Near{"base", n, local(d.q)})
		}
	}
	in := fmt.Sprintf("<%ssequence>%s</%ssequence>%s", P, el.String(), P, at.String())
	if base != "" {
		in = fmt.Sprintf("<%scomplexContent><%sextension base=\"%s\">%s</%sextension></%scomplexContent>", P, P, base, in, P, P)
	}
	c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">%s</%scomplexType>\n", P, n, in, P)
	x.d.Comps = append(x.d.Comps, c)
}

// local is a name without its prefix.
func local(q string) string { return q[strings.IndexByte(q, ':')+1:] }

func (x *docGen) use(c *Comp, t typeRef) string {
	if t.via != "" {
		c.Far = append(append(c.Far, t.file), strings.Fields(t.via)...)
	} else if t.file != "" {
		c.Uses = append(c.Uses, t.file)
	}
	return t.q
}

func (x *docGen) occurs() string {
	switch x.g.r.Intn(6) {
	case 0:
		return ` maxOccurs="unbounded"`
	case 1:
		return ` minOccurs="0"`
	case 2:
		return ` minOccurs="0" maxOccurs="3"`
	}
	return ""
}

// alias defines a simple type over a built-in one.
func (x *docGen) alias() {
	g, d := x.g, x.d
	t := g.tok()
	b := g.pick(strong)
	facet := ""
	if g.r.OneIn(3) {
		facet = fmt.Sprintf("<%spattern value=\"[a-z]+\"/>", d.P)
	}
	c := Comp{Text: fmt.Sprintf("  <%ssimpleType name=\"%s\"><%srestriction base=\"%s%s\">%s</%srestriction></%ssimpleType>\n", d.P, t, d.P, d.P, b, facet, d.P, d.P), Tokens: []string{t}, Alias: t, Base: b}
	d.Comps = append(d.Comps, c)
	if g.r.OneIn(6) { // a name that differs only in case
		tw := []byte(t)
		k := 3 + g.r.Intn(len(tw)-3)
		tw[k] -= 'a' - 'A'
		b2 := g.pick(strong)
		n := Comp{Text: strings.Replace(strings.Replace(c.Text, t, string(tw), 1), d.P+b+"\"", d.P+b2+"\"", 1), Tokens: []string{string(tw)}, Alias: string(tw), Base: b2}
		d.Comps = append(d.Comps, n)
	}
}

// pair defines a complex type in which one member has a type of another file
// and its neighbour the built-in type behind it.
func (x *docGen) pair(t typeRef) {
	g, d := x.g, x.d
	n, a, b := g.tok(), g.tok(), g.tok()
	c := Comp{Tokens: []string{n, a, b}, Pairs: [][2]string{{a, b}}}
	q := x.use(&c, t)
	if g.r.OneIn(3) {
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\"><%sattribute name=\"%s\" type=\"%s\"/><%sattribute name=\"%s\" type=\"%s%s\"/></%scomplexType>\n", d.P, n, d.P, a, q, d.P, b, d.P, t.base, d.P)
	} else {
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\"><%ssequence><%selement name=\"%s\" type=\"%s\"/><%selement name=\"%s\" type=\"%s%s\"/></%ssequence></%scomplexType>\n", d.P, n, d.P, d.P, a, q, d.P, b, d.P, t.base, d.P, d.P)
	}
	d.Comps = append(d.Comps, c)
}

var compKinds = []string{"simple", "enum", "list", "union", "complex", "complex", "choice", "element", "elemInline", "attribute", "group", "attrGroup", "simpleContent", "extension", "attrInline",
	"unionInline", "listInline", "restrInline", "elemInlineSimple", "innerSimple", "innerComplex", "groupInline", "facets", "empty", "noType", "sameName", "twice", "restricted", "groupRef", "members"}

// owners are components that have all members which they declare.
var owners = map[string]bool{"complex": true, "choice": true, "group": true, "attrGroup": true, "simpleContent": true, "extension": true, "elemInline": true, "restricted": true, "twice": true, "attrInline": true, "innerSimple": true, "sameName": true}

// comp adds a random component.
func (x *docGen) comp() {
	g, d := x.g, x.d
	kinds := g.kinds
	if len(kinds) == 0 {
		kinds = compKinds
	}
	P := d.P
	t := g.tok()
	n := g.name(t)
	c := Comp{Tokens: []string{t}}
	mem := func() (string, string) { // member name and its token
		t := g.tok()
		c.Tokens = append(c.Tokens, t)
		return g.name(t), t
	}
	inner := false // a member is documented, too
	doc := func(kind string) string {
		s := g.doc(P)
		if s != "" {
			c.Near = append(c.Near, Near{"doc " + kind, t, g.docTok})
		}
		return s
	}
	elems := func(k int) string {
		var b strings.Builder
		for i := 0; i < k; i++ {
			m, mt := mem()
			et := x.elemType()
			if et.named {
				c.Near = append(c.Near, Near{"line", mt, local(et.q)})
			}
			if dc := g.doc(P); dc != "" && g.r.OneIn(3) {
				inner = true
				fmt.Fprintf(&b, "      <%selement name=\"%s\" type=\"%s\"%s>%s</%selement>\n", P, m, x.use(&c, et), x.occurs(), dc, P)
				continue
			}
			fmt.Fprintf(&b, "      <%selement name=\"%s\" type=\"%s\"%s/>\n", P, m, x.use(&c, et), x.occurs())
		}
		return b.String()
	}
	attrs := func(k int) string {
		var b strings.Builder
		for i := 0; i < k; i++ {
			m, _ := mem()
			use := g.pick([]string{"", ` use="required"`, ` use="optional"`})
			fmt.Fprintf(&b, "      <%sattribute name=\"%s\" type=\"%s\"%s/>\n", P, m, x.use(&c, x.anyType()), use)
		}
		return b.String()
	}
	k := 1 + g.r.Intn(3)
	kind := g.pick(kinds)
	switch kind {
	case "simple":
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\">%s<%srestriction base=\"%s%s\"><%smaxLength value=\"10\"/></%srestriction></%ssimpleType>\n", P, n, doc("simple"), P, P, g.pick(builtins), P, P, P)
	case "enum":
		var b strings.Builder
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "<%senumeration value=\"v%d\"/>", P, i)
		}
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\">\n    <%srestriction base=\"%sstring\">%s</%srestriction>\n  </%ssimpleType>\n", P, n, P, P, b.String(), P, P)
	case "list":
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\">%s<%slist itemType=\"%s\"/></%ssimpleType>\n", P, n, doc("list"), P, x.use(&c, x.anyType()), P)
	case "union":
		var ms []string
		seen := map[string]bool{}
		for i := 0; i < 2+g.r.Intn(4); i++ {
			q := x.use(&c, x.anyType())
			if !seen[q] {
				seen[q] = true
				ms = append(ms, q)
				if !strings.HasPrefix(q, P) || P == "" && strings.HasPrefix(local(q), "Qz") {
					c.Near = append(c.Near, Near{"union", t, local(q)})
				}
			}
		}
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\">%s<%sunion memberTypes=\"%s\"/></%ssimpleType>\n", P, n, doc("union"), P, strings.Join(ms, " "), P)
	case "complex":
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">%s\n    <%ssequence>\n%s    </%ssequence>\n%s  </%scomplexType>\n", P, n, doc("complex"), P, elems(k), P, attrs(g.r.Intn(3)), P)
	case "choice":
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%schoice%s>\n%s    </%schoice>\n  </%scomplexType>\n", P, n, P, x.occurs(), elems(k), P, P)
	case "element":
		if dc := doc("element"); dc != "" {
			c.Text = fmt.Sprintf("  <%selement name=\"%s\" type=\"%s\">%s</%selement>\n", P, n, x.use(&c, x.anyType()), dc, P)
			break
		}
		c.Text = fmt.Sprintf("  <%selement name=\"%s\" type=\"%s\"/>\n", P, n, x.use(&c, x.anyType()))
	case "elemInline":
		c.Text = fmt.Sprintf("  <%selement name=\"%s\">\n    <%scomplexType>\n    <%ssequence>\n%s    </%ssequence>\n    </%scomplexType>\n  </%selement>\n", P, n, P, P, elems(k), P, P, P)
	case "attribute":
		if dc := doc("attribute"); dc != "" {
			c.Text = fmt.Sprintf("  <%sattribute name=\"%s\" type=\"%s\">%s</%sattribute>\n", P, n, x.use(&c, x.anyType()), dc, P)
			break
		}
		c.Text = fmt.Sprintf("  <%sattribute name=\"%s\" type=\"%s\"/>\n", P, n, x.use(&c, x.anyType()))
	case "group":
		c.Text = fmt.Sprintf("  <%sgroup name=\"%s\">\n    <%ssequence>\n%s    </%ssequence>\n  </%sgroup>\n", P, n, P, elems(k), P, P)
	case "attrGroup":
		c.Text = fmt.Sprintf("  <%sattributeGroup name=\"%s\">\n%s  </%sattributeGroup>\n", P, n, attrs(k), P)
	case "simpleContent":
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%ssimpleContent>\n    <%sextension base=\"%s%s\">\n%s    </%sextension>\n    </%ssimpleContent>\n  </%scomplexType>\n", P, n, P, P, P, g.pick(builtins), attrs(k), P, P, P)
	case "extension":
		bt := x.anyType()
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%scomplexContent>\n    <%sextension base=\"%s\">\n    <%ssequence>\n%s    </%ssequence>\n    </%sextension>\n    </%scomplexContent>\n  </%scomplexType>\n", P, n, P, P, x.use(&c, bt), P, elems(k), P, P, P, P)
	case "unionInline":
		mt := ""
		if g.r.OneIn(2) {
			mt = fmt.Sprintf(" memberTypes=\"%s %sint\"", x.use(&c, x.anyType()), P)
		}
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\"><%sunion%s><%ssimpleType><%srestriction base=\"%slong\"/></%ssimpleType></%sunion></%ssimpleType>\n", P, n, P, mt, P, P, P, P, P, P)
	case "listInline":
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\"><%slist><%ssimpleType><%srestriction base=\"%s\"/></%ssimpleType></%slist></%ssimpleType>\n", P, n, P, P, P, x.use(&c, x.anyType()), P, P, P)
	case "restrInline":
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\"><%srestriction><%ssimpleType><%srestriction base=\"%s\"/></%ssimpleType><%smaxInclusive value=\"7\"/></%srestriction></%ssimpleType>\n", P, n, P, P, P, x.use(&c, x.anyType()), P, P, P, P)
	case "elemInlineSimple":
		c.Text = fmt.Sprintf("  <%selement name=\"%s\"><%ssimpleType><%srestriction base=\"%s\">%s</%srestriction></%ssimpleType></%selement>\n", P, n, P, P, x.use(&c, x.anyType()), x.facets(), P, P, P)
	case "innerSimple":
		m, _ := mem()
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%ssequence>\n%s      <%selement name=\"%s\"><%ssimpleType><%srestriction base=\"%s\">%s</%srestriction></%ssimpleType></%selement>\n%s    </%ssequence>\n  </%scomplexType>\n", P, n, P, elems(1), P, m, P, P, x.use(&c, x.anyType()), x.facets(), P, P, P, elems(1), P, P)
	case "innerComplex":
		m, _ := mem()
		m2, _ := mem()
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%ssequence>\n    <%selement name=\"%s\"><%scomplexType><%ssequence>\n%s    <%selement name=\"%s\"><%scomplexType>\n%s    </%scomplexType></%selement>\n    </%ssequence></%scomplexType></%selement>\n%s    </%ssequence>\n  </%scomplexType>\n", P, n, P, P, m, P, P, elems(1), P, m2, P, attrs(1), P, P, P, P, P, elems(1), P, P)
	case "groupInline":
		m, _ := mem()
		in := fmt.Sprintf("<%ssimpleType><%srestriction base=\"%sint\">%s</%srestriction></%ssimpleType>", P, P, P, x.facets(), P, P)
		if g.r.OneIn(2) {
			in = fmt.Sprintf("<%scomplexType>\n%s    </%scomplexType>", P, attrs(1), P)
		}
		c.Text = fmt.Sprintf("  <%sgroup name=\"%s\">\n    <%ssequence>\n    <%selement name=\"%s\">%s</%selement>\n%s    </%ssequence>\n  </%sgroup>\n", P, n, P, P, m, in, P, elems(1), P, P)
	case "facets":
		c.Text = fmt.Sprintf("  <%ssimpleType name=\"%s\">%s<%srestriction base=\"%s\">%s%s</%srestriction></%ssimpleType>\n", P, n, doc("facets"), P, x.use(&c, x.anyType()), x.facets(), x.facets(), P, P)
	case "empty":
		c.Text = g.pick([]string{fmt.Sprintf("  <%scomplexType name=\"%s\"/>\n", P, n), fmt.Sprintf("  <%selement name=\"%s\"><%scomplexType/></%selement>\n", P, n, P, P), fmt.Sprintf("  <%scomplexType name=\"%s\"><%ssequence/></%scomplexType>\n", P, n, P, P)})
	case "noType":
		m, _ := mem()
		c.Text = fmt.Sprintf("  <%selement name=\"%s\"/>\n  <%scomplexType name=\"%s\"><%sattribute name=\"%s\"/></%scomplexType>\n", P, n, P, m, P, m, P)
	case "sameName":
		q := x.d.Self + n
		a := fmt.Sprintf("  <%selement name=\"%s\" type=\"%s\"/>\n", P, n, q)
		b := fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%ssequence>\n%s    </%ssequence>\n  </%scomplexType>\n", P, n, P, elems(k), P, P)
		c.Text = a + b
		if g.r.OneIn(2) {
			c.Text = b + a
		}
	case "twice":
		m, _ := mem()
		q := x.use(&c, x.anyType())
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%schoice>\n    <%selement name=\"%s\" type=\"%s\"/>\n    <%ssequence><%selement name=\"%s\" type=\"%s\" maxOccurs=\"unbounded\"/></%ssequence>\n%s    </%schoice>\n  </%scomplexType>\n", P, n, P, P, m, q, P, P, m, q, P, elems(1), P, P)
	case "restricted":
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%scomplexContent><%srestriction base=\"%s\">\n    <%ssequence>\n%s    </%ssequence>\n    </%srestriction></%scomplexContent>\n  </%scomplexType>\n", P, n, P, P, x.use(&c, x.elemType()), P, elems(k), P, P, P, P)
	case "groupRef":
		m, _ := mem()
		c.Text = fmt.Sprintf("  <%sgroup name=\"%s\">\n    <%ssequence>\n%s    <%sgroup ref=\"%s%s\" maxOccurs=\"2\"/>\n    </%ssequence>\n  </%sgroup>\n  <%sgroup name=\"%s\"><%schoice>\n%s    </%schoice></%sgroup>\n", P, n, P, elems(1), P, x.d.Self, m, P, P, P, m, P, elems(1), P, P)
	case "members":
		var own []string
		member := func() string {
			m, mt := mem()
			own = append(own, mt)
			occurs := x.occurs()
			switch g.r.Intn(5) {
			case 0:
				return fmt.Sprintf("      <%selement name=\"%s\"%s/>\n", P, m, occurs)
			case 1:
				m2, _ := mem()
				return fmt.Sprintf("      <%selement name=\"%s\"%s><%scomplexType><%ssequence><%selement name=\"%s\">%s</%selement>\n%s</%ssequence>%s</%scomplexType></%selement>\n", P, m, occurs, P, P, P, m2, x.inlineType(&c), P, elems(1), P, attrs(g.r.Intn(2)), P, P)
			case 2:
				_, mt2 := mem()
				own = append(own, mt2)
				m, m2 := mt, mt2 // as other spellings show up
				b := g.pick(strong)
				c.Pairs = append(c.Pairs, [2]string{mt, mt2})
				return fmt.Sprintf("      <%selement name=\"%s\"%s><%ssimpleType><%srestriction base=\"%s%s\">%s</%srestriction></%ssimpleType></%selement>\n      <%selement name=\"%s\" type=\"%s%s\"%s/>\n", P, m, occurs, P, P, P, b, x.facets(), P, P, P, P, m2, P, b, occurs)
			case 3:
				return fmt.Sprintf("      <%selement name=\"%s\" type=\"%s\"%s/>\n", P, m, x.use(&c, x.elemType()), occurs)
			}
			return fmt.Sprintf("      <%selement name=\"%s\"%s>%s</%selement>\n", P, m, occurs, x.inlineType(&c), P)
		}
		in := ""
		for i := 0; i < k+1; i++ {
			in += member()
		}
		in = fmt.Sprintf("    <%ssequence>\n%s    </%ssequence>\n", P, in, P)
		for i := g.r.Intn(3); i > 0; i-- {
			m, mt := mem()
			own = append(own, mt)
			if g.r.OneIn(2) {
				in += fmt.Sprintf("    <%sattribute name=\"%s\">%s</%sattribute>\n", P, m, x.inlineType(&c), P)
			} else {
				in += fmt.Sprintf("    <%sattribute name=\"%s\" type=\"%s\"/>\n", P, m, x.use(&c, x.anyType()))
			}
		}
		if kd := g.pick([]string{"", "", "", "extension", "restriction"}); kd != "" {
			in = fmt.Sprintf("    <%scomplexContent><%s%s base=\"%s\">\n%s    </%s%s></%scomplexContent>\n", P, P, kd, x.use(&c, x.elemType()), in, P, kd, P)
		}
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n%s  </%scomplexType>\n", P, n, in, P)
		if g.r.OneIn(4) {
			c.Text = fmt.Sprintf("  <%selement name=\"%s\"><%scomplexType>\n%s  </%scomplexType></%selement>\n", P, n, P, in, P, P)
		}
		for _, m := range own {
			c.Near = append(c.Near, Near{"in members", t, m})
		}
	case "attrInline":
		m, _ := mem()
		c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\">\n    <%sattribute name=\"%s\"><%ssimpleType><%srestriction base=\"%sstring\"><%senumeration value=\"a\"/><%senumeration value=\"b\"/></%srestriction></%ssimpleType></%sattribute>\n  </%scomplexType>\n", P, n, P, m, P, P, P, P, P, P, P, P, P)
	}
	if owners[kind] {
		for _, m := range c.Tokens[1:] {
			c.Near = append(c.Near, Near{"in " + kind, t, m})
		}
	}
	if inner { // of several texts one remains
		var keep []Near
		for _, k := range c.Near {
			if !strings.HasPrefix(k.Kind, "doc ") {
				keep = append(keep, k)
			}
		}
		c.Near = keep
	}
	d.Comps = append(d.Comps, c)
}

// inlineType is a simple type without a name.
func (x *docGen) inlineType(c *Comp) string {
	P := x.d.P
	restriction := func() string {
		return fmt.Sprintf("<%srestriction base=\"%s\">%s%s</%srestriction>", P, x.use(c, x.anyType()), x.facets(), x.facets(), P)
	}
	in := restriction()
	switch x.g.r.Intn(6) {
	case 0:
		in = fmt.Sprintf("<%slist itemType=\"%s\"/>", P, x.use(c, x.anyType()))
	case 1:
		in = fmt.Sprintf("<%sunion memberTypes=\"%s\"/>", P, x.use(c, x.anyType()))
	case 2:
		in = fmt.Sprintf("<%[1]slist><%[1]ssimpleType>%[2]s</%[1]ssimpleType></%[1]slist>", P, restriction())
	case 3:
		in = fmt.Sprintf("<%[1]sunion><%[1]ssimpleType>%[2]s</%[1]ssimpleType><%[1]ssimpleType>%[3]s</%[1]ssimpleType></%[1]sunion>", P, restriction(), restriction())
	}
	return fmt.Sprintf("<%[1]ssimpleType>%[2]s</%[1]ssimpleType>", P, in)
}

// facets are random facets of a restriction.
func (x *docGen) facets() string {
	f := x.g.pick([]string{"", "", "maxLength value=\"9\"", "minLength value=\"1\"", "length value=\"4\"", "pattern value=\"[A-Z]\\d+\"", "whiteSpace value=\"collapse\"", "totalDigits value=\"5\"", "fractionDigits value=\"2\"", "minInclusive value=\"0\"", "maxExclusive value=\"99\"", "enumeration value=\"v w\""})
	if f == "" {
		return ""
	}
	return "<" + x.d.P + f + "/>"
}

// opts tunes a set of schemas.
type setOpts struct {
	dir     string // input directory
	files   int    // schema files
	links   int    // imports/includes between them
	cyclic  bool
	include int  // share of includes among links, of 10
	subdirs bool // spread over directories
	comps   int  // components per file (at most)
	enc     bool // vary encodings
	style   bool
	docs    bool
	missing bool // dangling or remote references
	odd     bool // odd file names
	root    int  // files that others do not refer to come last
	big     int  // components of one more file
	star    bool // the last file refers to all others
	chain   bool // every file includes the one before it
	spaces  int  // how target namespaces are chosen: 0 one for each file, 1 few, 2 some without
	shuffle bool // components in any order
	via     bool // a file is reached through a symbolic link
}

var encs = []string{"", "", "UTF-8", "utf-8", "ISO-8859-1", "windows-1252", "KOI8-R", "Shift_JIS", "GBK", "US-ASCII", "ISO-8859-2", "ISO-8859-15", "windows-1251", "EUC-JP", "EUC-KR", "Big5", "UTF-16LE", "UTF-16BE"}

// labels are other names of encodings.
var labels = map[string][]string{
	"UTF-8": {"Utf-8", "utf8", "UTF8"}, "ISO-8859-1": {"iso-8859-1", "latin1", "Latin1", "ISO8859-1", "iso_8859-1", "l1"},
	"windows-1252": {"Windows-1252", "WINDOWS-1252", "cp1252"}, "KOI8-R": {"koi8-r", "koi8"}, "Shift_JIS": {"shift_jis", "SJIS", "SHIFT_JIS", "shift-jis"},
	"GBK": {"gbk", "gb2312", "GB2312"}, "US-ASCII": {"us-ascii", "ascii", "ASCII"}, "ISO-8859-2": {"iso-8859-2", "latin2"}, "ISO-8859-15": {"iso-8859-15"},
	"windows-1251": {"Windows-1251", "cp1251"}, "EUC-JP": {"euc-jp"}, "EUC-KR": {"euc-kr", "korean"}, "Big5": {"big5", "BIG5"}, "UTF-16LE": {"utf-16"},
}

// set generates schema files that refer to each other; references are acyclic
// (from later to earlier files) unless asked.
func (g *gen) set(o setOpts) []*File {
	var fs []*File
	dirs := []string{o.dir}
	if o.subdirs {
		for i := 0; i < 1+g.r.Intn(3); i++ {
			base := dirs[g.r.Intn(len(dirs))]
			name := fmt.Sprintf("d%d", i)
			if o.odd && g.r.OneIn(2) || g.r.OneIn(12) {
				name = g.pick([]string{".d%d", "dd%d.xsd", "_d%d", "node_modules%d", ".git", "vendor", "testdata", "in", "out%d", "sp ace%d", "dd%d.go", "ünï%d", "xgen_out", "tmp", "D%d", "d%d~", "internal", "..d%d", "d%d..", "CVS", "lost+found"})
				if strings.Contains(name, "%d") {
					name = fmt.Sprintf(name, i)
				}
			}
			dirs = append(dirs, path.Join(base, name))
		}
	}
	pfx := g.pick([]string{"xs:", "xs:", "xsd:", ""})
	g.style, g.docs = o.style, o.docs
	space := g.spaces()
	var gs []*docGen
	names := map[string]bool{}
	for _, d := range dirs {
		names[d] = true
	}
	for i := 0; i < o.files; i++ {
		var p string
		for {
			nm := fmt.Sprintf("%c%d.xsd", 'a'+g.r.Intn(26), i)
			if len(dirs) > 1 && i > 0 && g.r.OneIn(3) { // a name that another directory has, too
				nm = path.Base(fs[g.r.Intn(i)].Path)
			}
			if o.odd && g.r.Intn(4) > 0 {
				nm = g.pick([]string{nm, nm, fmt.Sprintf("s%d", i), fmt.Sprintf(".hid%d.xsd", i), fmt.Sprintf("sp ace%d.xsd", i), fmt.Sprintf("s%d.XSD", i), fmt.Sprintf("s%d.xsd.go", i), fmt.Sprintf("ünï%d.xsd", i), fmt.Sprintf("s%d.xml", i), fmt.Sprintf("-o%d.xsd", i), fmt.Sprintf("s%d.v1.2.xsd", i), fmt.Sprintf("%%s%d.xsd", i), fmt.Sprintf("xgen_out%d.xsd", i), fmt.Sprintf("_s%d.xsd", i), fmt.Sprintf("s%d~", i), fmt.Sprintf("s%d.xsd.bak", i), fmt.Sprintf("s+%d.xsd", i), fmt.Sprintf("s&%d.xsd", i), fmt.Sprintf("it's%d.xsd", i), fmt.Sprintf("[s]%d.xsd", i), fmt.Sprintf("s*%d.xsd", i), fmt.Sprintf("$HOME%d.xsd", i), fmt.Sprintf("~s%d.xsd", i), fmt.Sprintf("s,%d;.xsd", i), fmt.Sprintf("s{%d}.xsd", i), fmt.Sprintf("s=%d@x!.xsd", i)})
			}
			dir := dirs[g.r.Intn(len(dirs))]
			if o.odd && i > 0 && g.r.OneIn(5) { // nearly the name of another file
				q := fs[g.r.Intn(i)].Path
				nm = path.Base(q)
				stem := strings.TrimSuffix(nm, path.Ext(nm))
				nm = g.pick([]string{strings.ToUpper(nm), strings.ToLower(nm), stem + ".xml", stem + ".wsdl", stem, stem + "x.xsd", nm + ".xsd", "x" + nm, stem + "-" + path.Ext(nm)})
				if g.r.Intn(3) > 0 {
					dir = path.Dir(q)
				}
			}
			p = path.Join(dir, nm)
			if nm != "" && !names[p] && !sharesOutput(names, o.dir, p) {
				names[p] = true
				break
			}
		}
		d := &Doc{P: pfx, TNS: space(i), Doced: o.docs && g.r.OneIn(4)}
		if g.r.OneIn(4) {
			d.P = g.pick([]string{"xs:", "xsd:", ""})
		}
		switch {
		case o.spaces == 1:
			d.TNS = space(i % 2)
		case o.spaces == 2 && d.P != "" && g.r.OneIn(2):
			d.TNS = ""
		}
		if d.TNS == "" {
		} else if d.P == "" || g.r.OneIn(2) {
			d.Self = g.pick([]string{"tns:", "t:"})
		}
		if o.enc {
			d.Enc = g.pick(encs)
			if l := labels[d.Enc]; l != nil && g.r.OneIn(3) {
				d.Label = g.pick(l)
			}
			d.BOM = (d.Enc == "" || d.Enc == "UTF-8") && g.r.OneIn(4)
			d.CRLF = g.r.OneIn(4)
			d.Decl = d.Enc != "" && !strings.HasPrefix(d.Enc, "UTF-16") || g.r.OneIn(2)
		} else {
			d.Decl = g.r.OneIn(2)
		}
		if g.r.OneIn(4) {
			d.Form = g.r.Intn(32)
		}
		f := &File{Path: p, Doc: d}
		fs = append(fs, f)
		gs = append(gs, &docGen{g: g, d: d, path: p, paired: map[string]bool{}})
	}
	// definitions others may use
	for _, x := range gs {
		g.enc = x.d.Enc
		for i := 0; i < 1+g.r.Intn(2); i++ {
			x.alias()
		}
		q := x.d.Self
		for _, c := range x.d.Comps {
			x.local = append(x.local, typeRef{q: q + c.Alias, base: c.Base})
		}
		for g.r.OneIn(2) {
			x.define()
			c := x.d.Comps[len(x.d.Comps)-1]
			x.refs = append(x.refs, defRef{q: q + c.Name, kind: c.Def, base: c.Base, file: x.path})
		}
	}
	// links
	have := map[[2]int]bool{}
	if n := len(gs) - 1; o.star {
		inc := g.r.Intn(11)
		for i := 0; i < n; i++ {
			have[[2]int{n, i}] = true
			g.link(gs, n, i, g.r.Intn(10) < inc)
		}
	}
	for i := 1; o.chain && i < len(gs); i++ {
		have[[2]int{i, i - 1}] = true
		g.link(gs, i, i-1, true)
	}
	for l := 0; l < o.links && o.files > 0; l++ {
		a, b := g.r.Intn(o.files), g.r.Intn(o.files)
		if !o.cyclic {
			if a == b {
				continue
			}
			if a < b {
				a, b = b, a
			}
		}
		if have[[2]int{a, b}] {
			continue
		}
		have[[2]int{a, b}] = true
		g.link(gs, a, b, g.r.Intn(10) < o.include)
	}
	for _, x := range gs {
		x.far(gs)
	}
	if o.missing && o.files > 0 {
		x := gs[g.r.Intn(len(gs))]
		g.enc = x.d.Enc
		switch g.r.Intn(6) {
		case 0:
			x.d.Refs = append(x.d.Refs, Ref{Loc: "http://example.invalid/none.xsd", Include: true})
		case 1:
			x.d.Refs = append(x.d.Refs, Ref{NS: "urn:x:remote", Prefix: "rem", Loc: "https://example.invalid/r.xsd"})
			x.foreign("rem", g.r.Intn(3))
		case 2:
			x.d.Refs = append(x.d.Refs, Ref{NS: "urn:x:unused", Prefix: "unu", Loc: "http://www.w3.org/2001/xml.xsd"})
		case 3: // the way xml:lang is commonly brought in
			x.d.Refs = append(x.d.Refs, Ref{NS: "http://www.w3.org/XML/1998/namespace", Loc: "http://www.w3.org/2001/xml.xsd"})
			for i := g.r.Intn(3); i > 0; i-- {
				n, a := g.tok(), g.tok()
				x.d.Comps = append(x.d.Comps, Comp{Text: fmt.Sprintf("  <%scomplexType name=\"%s\"><%sattribute ref=\"xml:%s\"/><%sattribute name=\"%s\" type=\"%sstring\"/></%scomplexType>\n", x.d.P, n, x.d.P, g.pick([]string{"lang", "space", "base", "id"}), x.d.P, a, x.d.P, x.d.P), Tokens: []string{n, a}})
			}
		case 4: // an import that leaves the location to the processor
			x.d.Refs = append(x.d.Refs, Ref{NS: "urn:x:elsewhere", Prefix: "els"})
			x.foreign("els", g.r.Intn(3))
		case 5: // two of them
			x.d.Refs = append(x.d.Refs, Ref{NS: "urn:x:remote", Prefix: "rem", Loc: "http://example.invalid/r.xsd"}, Ref{NS: "urn:x:other", Prefix: "oth", Loc: "https://example.invalid/a/b/r.xsd"})
			x.foreign("oth", g.r.Intn(2))
			x.foreign("rem", g.r.Intn(2))
		}
	}
	for _, x := range gs {
		g.enc = x.d.Enc
		for _, t := range x.ext {
			if t.base != "" && g.r.Intn(3) > 0 {
				x.pair(t)
			}
		}
		if g.r.OneIn(3) && len(x.local) > 0 {
			x.pair(x.local[0])
		}
		if len(x.refs) > 0 && g.r.Intn(3) > 0 {
			x.refer()
		}
		for i := 0; i < 1+g.r.Intn(o.comps); i++ {
			x.comp()
		}
	}
	if o.big > 0 && len(gs) > 0 {
		x := gs[len(gs)-1]
		g.enc = x.d.Enc
		for i := 0; i < o.big; i++ {
			x.comp()
		}
	}
	if o.via && len(fs) > 0 {
		f := fs[g.r.Intn(len(fs))]
		f.Via = fmt.Sprintf("/store/%s/%s", g.pick([]string{"a", "in/b", "c/d"}), g.pick([]string{"0001", "blob.xsd", path.Base(f.Path)}))
	}
	if o.shuffle {
		for _, f := range fs {
			c := f.Doc.Comps
			for i := len(c) - 1; i > 0; i-- {
				j := g.r.Intn(i + 1)
				c[i], c[j] = c[j], c[i]
			}
		}
	}
	return fs
}

// foreign adds n types whose members have types that no local file defines.
func (x *docGen) foreign(prefix string, n int) {
	g, d := x.g, x.d
	for ; n > 0; n-- {
		t, a, b, m := g.tok(), g.tok(), g.tok(), g.pick([]string{"Thing", "ThatType", "code-list"})
		c := Comp{Tokens: []string{t, a, b}}
		if g.r.OneIn(3) {
			c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\"><%sattribute name=\"%s\" type=\"%s:%s\"/><%sattribute name=\"%s\" type=\"%sstring\"/></%scomplexType>\n", d.P, t, d.P, a, prefix, m, d.P, b, d.P, d.P)
		} else {
			c.Text = fmt.Sprintf("  <%scomplexType name=\"%s\"><%ssequence><%selement name=\"%s\" type=\"%s:%s\"/><%selement name=\"%s\" type=\"%sstring\"/></%ssequence></%scomplexType>\n", d.P, t, d.P, d.P, a, prefix, m, d.P, b, d.P, d.P, d.P)
		}
		d.Comps = append(d.Comps, c)
	}
}

// spaces returns a way to name target namespaces.
func (g *gen) spaces() func(i int) string {
	switch g.r.Intn(12) {
	case 0:
		return func(i int) string { return "urn:x:" + mixed("namespace", i) }
	case 1:
		return func(i int) string { return "urn:x" + strings.Repeat(":a", i) }
	case 2:
		return func(i int) string {
			tail := []string{"", "/", "#", "//", "/#", "/%20", "?"}
			return fmt.Sprintf("http://example.com/ns%s", tail[i%len(tail)]+strings.Repeat("/v", i/len(tail)))
		}
	case 3:
		return func(i int) string { return fmt.Sprintf("http://example.com/schemas/2020/%d.xsd", i) }
	case 4:
		return func(i int) string { return fmt.Sprintf("%d", i) }
	}
	return func(i int) string { return fmt.Sprintf("urn:x:%d", i) }
}

// mixed writes a word in the i-th mixture of cases.
func mixed(word string, i int) string {
	b := []byte(word)
	for k := len(b) - 1; k >= 0 && i > 0; k-- {
		if i&1 != 0 {
			b[k] -= 'a' - 'A'
		}
		i >>= 1
	}
	return string(b)
}

// far adds the types of files included by included files.
func (x *docGen) far(gs []*docGen) {
	at := func(p string) *docGen {
		for _, y := range gs {
			if y.path == p {
				return y
			}
		}
		return nil
	}
	seen := map[string]bool{x.path: true}
	type stop struct {
		y   *docGen
		via string
	}
	todo := []stop{{x, ""}}
	for len(todo) > 0 {
		s := todo[0]
		todo = todo[1:]
		for _, r := range s.y.d.Refs {
			y := at(r.Path)
			if y == nil || !r.Include || seen[r.Path] {
				continue
			}
			seen[r.Path] = true
			via := s.via
			if s.y != x {
				via += " " + s.y.path
				for _, c := range y.d.Comps {
					if c.Alias != "" {
						x.ext = append(x.ext, typeRef{x.d.Self + c.Alias, c.Base, y.path, via, false})
					}
				}
			}
			todo = append(todo, stop{y, via})
		}
	}
}

func relTo(from, to string) string {
	f := strings.Split(strings.Trim(path.Dir(from), "/"), "/")
	t := strings.Split(strings.Trim(to, "/"), "/")
	i := 0
	for i < len(f) && i < len(t)-1 && f[i] == t[i] {
		i++
	}
	return strings.Repeat("../", len(f)-i) + strings.Join(t[i:], "/")
}

// refer adds a reference.
func (d *Doc) refer(r Ref) {
	for i := 0; i < len(r.Loc); i++ {
		if e := d.Enc; r.Loc[i] >= 0x80 && e != "" && e != "UTF-8" && e != "utf-8" && !strings.HasPrefix(e, "UTF-16") {
			d.Enc = "" // it could not name the file
		}
	}
	d.Refs = append(d.Refs, r)
}

func (g *gen) link(gs []*docGen, a, b int, include bool) {
	x, y := gs[a], gs[b]
	r := Ref{Loc: relTo(x.path, y.path), Path: y.path, Include: include}
	if !strings.HasPrefix(r.Loc, "../") && g.r.OneIn(5) {
		r.Loc = "./" + r.Loc
	}
	if !include && x.d.TNS == y.d.TNS && a != b {
		include, r.Include = true, true
	}
	if !include {
		r.NS = y.d.TNS
		switch r.Prefix = fmt.Sprintf("n%d", b); {
		case g.r.OneIn(6):
			r.Prefix = mixed("nspfx", b)
		case g.r.OneIn(8):
			r.Prefix = fmt.Sprintf(g.pick([]string{"n-%d", "n.%d", "_n%d", "n%dx", "N%d"}), b)
		}
		if r.NS == "" { // unprefixed names are the imported ones
			r.Prefix = ""
			if x.d.P == "" || x.d.Self == "" {
				return
			}
		}
		r.LocFirst = g.r.OneIn(4)
		if a == b {
			return
		}
		for _, q := range x.d.Refs {
			if !q.Include && q.NS == r.NS {
				return
			}
		}
	}
	x.d.refer(r)
	for _, c := range y.d.Comps {
		q := x.d.Self
		if !include {
			q = ""
			if r.Prefix != "" {
				q = r.Prefix + ":"
			}
		}
		if c.Def != "" && x != y {
			x.refs = append(x.refs, defRef{q + c.Name, c.Def, c.Base, y.path, true})
		}
		if c.Alias == "" {
			continue
		}
		x.ext = append(x.ext, typeRef{q: q + c.Alias, base: c.Base, file: y.path})
	}
}

// norm reduces text to lower-case ASCII letters and digits.
func norm(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 'A' && c <= 'Z':
			b = append(b, c+32)
		case c >= 'a' && c <= 'z', c >= '0' && c <= '9':
			b = append(b, c)
		}
	}
	return string(b)
}
