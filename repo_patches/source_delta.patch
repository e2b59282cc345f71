From 1dd134b85c08d2a3b6f7848481c82ae3b99556d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 01/53] fix: encode every element of an Any extension point

Any.Marshal3MF returned after the first element that was encoded without
error, dropping the rest.
---
 spec/spec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 9faae81..2ec83d7 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -123,7 +123,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err == nil {
+		if err := ext.Marshal3MF(x, start); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From af2e941474262f9974466d242f50ba97bfd0753b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 02/53] fix: keep and escape the extension attributes of every
 triangle

The attributes of a triangle were appended on top of the attribute slice
shared by all triangles, which renamed the property attributes of the
following ones, and were written without escaping.
---
 encoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 39c84f7..57f2e89 100644
--- a/encoder.go
+++ b/encoder.go
@@ -499,7 +499,16 @@ func (e *Encoder) writeTriangles(x spec.Encoder, r *Object, m *Mesh) {
 				start.Attr = attrs[:5]
 			}
 		}
-		t.AnyAttr.Marshal3MF(x, &start)
+		if len(t.AnyAttr) != 0 {
+			// Do not let the extension attributes overwrite the shared
+			// core attributes and do not skip their escaping.
+			start.Attr = start.Attr[:len(start.Attr):len(start.Attr)]
+			t.AnyAttr.Marshal3MF(x, &start)
+			x.SetSkipAttrEscape(false)
+			x.EncodeToken(start)
+			x.SetSkipAttrEscape(true)
+			continue
+		}
 		x.EncodeToken(start)
 	}
 	x.SetSkipAttrEscape(false)
-- 
2.43.0


From 552f06866a2417d5aa3719a59170ee7fad1ef529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 03/53] fix: scope the name space prefixes written by the
 encoder

An element that declared its own name space was written before the
declaration was known, declarations leaked out of their element, and a
name in an undeclared name space was written with the URI as prefix or
with no prefix at all, which produced XML that cannot be read back or
that means something else.
---
 internal/xml/printer.go | 140 +++++++++++++++++++++++++++++++---------
 1 file changed, 108 insertions(+), 32 deletions(-)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 90f8300..37dc73d 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -3,6 +3,7 @@ package xml
 import (
 	"bufio"
 	"encoding/xml"
+	"strconv"
 )
 
 const (
@@ -13,31 +14,103 @@ type Printer struct {
 	*bufio.Writer
 	AutoClose      bool
 	SkipAttrEscape bool
-	attrPrefix     map[string]string // map name space -> prefix
+	attrPrefix     map[string]string // map name space -> prefix, of the name spaces in scope
+	defaultSpace   string            // default name space in scope
+	depth          int               // number of open elements
+	undo           []binding         // bindings to restore when their element is closed
 }
 
-// createAttrPrefix finds the name space prefix attribute to use for the given name space,
-// defining a new prefix if necessary. It returns the prefix.
-func (p *Printer) createAttrPrefix(attr *xml.Attr) string {
-	if prefix := p.attrPrefix[attr.Name.Space]; prefix != "" {
-		return prefix
-	}
-	if attr.Name.Space == nsXML {
-		return "xml"
-	}
+// binding is the prefix that a name space had before an element changed it.
+type binding struct {
+	depth     int
+	space     string
+	prefix    string
+	isDefault bool
+}
 
-	// Need to define a new name space.
+// setPrefix binds a prefix to a name space until the current element is closed.
+// An empty prefix removes the binding.
+func (p *Printer) setPrefix(space, prefix string) {
 	if p.attrPrefix == nil {
 		p.attrPrefix = make(map[string]string)
 	}
+	p.undo = append(p.undo, binding{depth: p.depth, space: space, prefix: p.attrPrefix[space]})
+	if prefix == "" {
+		delete(p.attrPrefix, space)
+	} else {
+		p.attrPrefix[space] = prefix
+	}
+}
 
-	ns, prefix := attr.Name.Space, attr.Name.Local
+// declare updates the name spaces in scope if attr is a name space declaration.
+func (p *Printer) declare(attr *xml.Attr) {
 	if attr.Name.Space == "xmlns" {
-		ns, prefix = attr.Value, attr.Name.Local
+		for space, prefix := range p.attrPrefix {
+			if prefix == attr.Name.Local && space != attr.Value {
+				p.setPrefix(space, "")
+			}
+		}
+		p.setPrefix(attr.Value, attr.Name.Local)
+	} else if attr.Name.Space == "" && attr.Name.Local == "xmlns" {
+		p.undo = append(p.undo, binding{depth: p.depth, space: p.defaultSpace, isDefault: true})
+		p.defaultSpace = attr.Value
 	}
-	p.attrPrefix[ns] = prefix
+}
 
-	return attr.Name.Space
+// declareMissing appends to start the declaration of the name space
+// if there is no prefix for it in scope.
+func (p *Printer) declareMissing(start *xml.StartElement, space string) {
+	if space == "" || space == "xmlns" || space == nsXML || p.attrPrefix[space] != "" {
+		return
+	}
+	inUse := make(map[string]bool)
+	for _, prefix := range p.attrPrefix {
+		inUse[prefix] = true
+	}
+	for _, a := range start.Attr {
+		if a.Name.Space == "xmlns" {
+			inUse[a.Name.Local] = true
+		}
+	}
+	prefix := "ns1"
+	for i := 2; inUse[prefix]; i++ {
+		prefix = "ns" + strconv.Itoa(i)
+	}
+	attr := xml.Attr{Name: xml.Name{Space: "xmlns", Local: prefix}, Value: space}
+	start.Attr = append(start.Attr[:len(start.Attr):len(start.Attr)], attr)
+	p.declare(&attr)
+}
+
+// closeScope restores the name spaces that were in scope
+// before the current element.
+func (p *Printer) closeScope() {
+	for n := len(p.undo); n > 0 && p.undo[n-1].depth == p.depth; n-- {
+		b := p.undo[n-1]
+		p.undo = p.undo[:n-1]
+		if b.isDefault {
+			p.defaultSpace = b.space
+		} else if b.prefix == "" {
+			delete(p.attrPrefix, b.space)
+		} else {
+			p.attrPrefix[b.space] = b.prefix
+		}
+	}
+	p.depth--
+}
+
+// writePrefix writes the prefix of the name, if it needs one.
+func (p *Printer) writePrefix(name xml.Name, isElement bool) {
+	if name.Space == "" || (isElement && name.Space == p.defaultSpace) {
+		return
+	}
+	prefix := name.Space
+	if name.Space == nsXML {
+		prefix = "xml"
+	} else if name.Space != "xmlns" {
+		prefix = p.attrPrefix[name.Space]
+	}
+	p.WriteString(prefix)
+	p.WriteByte(':')
 }
 
 // EscapeString writes to p the properly escaped XML equivalent
@@ -47,14 +120,23 @@ func (p *Printer) EscapeString(s string) {
 }
 
 // WriteStart writes the given start element.
+//
+// The name spaces declared by the element are in scope until its end.
+// Those which are used but not declared are declared on the fly.
 func (p *Printer) WriteStart(start *xml.StartElement) {
-	p.WriteByte('<')
-	if start.Name.Space != "" {
-		if prefix := p.attrPrefix[start.Name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
+	p.depth++
+	for i := range start.Attr {
+		p.declare(&start.Attr[i])
+	}
+	if start.Name.Space != p.defaultSpace {
+		p.declareMissing(start, start.Name.Space)
 	}
+	for _, attr := range start.Attr {
+		p.declareMissing(start, attr.Name.Space)
+	}
+
+	p.WriteByte('<')
+	p.writePrefix(start.Name, true)
 	p.WriteString(start.Name.Local)
 
 	// Attributes
@@ -64,13 +146,10 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 			continue
 		}
 		p.WriteByte(' ')
-		if name.Space != "" {
-			p.WriteString(p.createAttrPrefix(&attr))
-			p.WriteByte(':')
-		}
+		p.writePrefix(name, false)
 		p.WriteString(name.Local)
 		p.WriteString(`="`)
-		if p.SkipAttrEscape {
+		if p.SkipAttrEscape && name.Space != "xmlns" {
 			p.WriteString(attr.Value)
 		} else {
 			p.EscapeString(attr.Value)
@@ -79,6 +158,7 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 	}
 	if p.AutoClose {
 		p.WriteByte('/')
+		p.closeScope()
 	}
 	p.WriteByte('>')
 }
@@ -86,12 +166,8 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 func (p *Printer) WriteEnd(name xml.Name) {
 	p.WriteByte('<')
 	p.WriteByte('/')
-	if name.Space != "" {
-		if prefix := p.attrPrefix[name.Space]; prefix != "" {
-			p.WriteString(prefix)
-			p.WriteByte(':')
-		}
-	}
+	p.writePrefix(name, true)
 	p.WriteString(name.Local)
 	p.WriteByte('>')
+	p.closeScope()
 }
-- 
2.43.0


From a0a612f6d52e26b4d91cb884392103d579f159a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 04/53] fix: do not share the relationships of a child model
 with the encoder

The relationships found while encoding were appended to the slice owned
by the model.
---
 encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 57f2e89..e7e856b 100644
--- a/encoder.go
+++ b/encoder.go
@@ -193,7 +193,7 @@ func (e *Encoder) writeChildModels(m *Model) error {
 			return err
 		}
 		enc := newXMLEncoder(w, e.FloatPrecision)
-		enc.relationships = child.Relationships
+		enc.relationships = append([]Relationship(nil), child.Relationships...)
 		if err = e.writeChildModel(enc, m, child); err != nil {
 			return err
 		}
-- 
2.43.0


From a6c494e4ab265e407931af367ca4334287835490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 05/53] fix: write the second radius of a beam when it differs
 from the first

r2 defaults to r1, not to the radius of the lattice.
---
 beamlattice/encoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beamlattice/encoder.go b/beamlattice/encoder.go
index 67ebf58..cb5eccb 100644
--- a/beamlattice/encoder.go
+++ b/beamlattice/encoder.go
@@ -83,7 +83,11 @@ func marshalBeams(x spec.Encoder, m *BeamLattice) {
 				Value: strconv.FormatFloat(float64(b.Radius[0]), 'f', x.FloatPresicion(), 32),
 			})
 		}
-		if b.Radius[1] > 0 && b.Radius[1] != m.Radius {
+		r1 := b.Radius[0]
+		if r1 <= 0 {
+			r1 = m.Radius
+		}
+		if b.Radius[1] > 0 && b.Radius[1] != r1 {
 			xbeam.Attr = append(xbeam.Attr, xml.Attr{
 				Name:  xml.Name{Local: attrR2},
 				Value: strconv.FormatFloat(float64(b.Radius[1]), 'f', x.FloatPresicion(), 32),
-- 
2.43.0


From 2a8a7bb7403a2ad4fc0a8b5056fb3324334748e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 06/53] fix: do not write empty production UUIDs

The decoder of this library, as the specification asks, rejects them.
---
 production/encoder.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/production/encoder.go b/production/encoder.go
index 7d41027..3bf0e4a 100644
--- a/production/encoder.go
+++ b/production/encoder.go
@@ -11,13 +11,17 @@ import (
 
 // Marshal3MF encodes the resource attributes.
 func (u *BuildAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
 // Marshal3MF encodes the resource attributes.
 func (u *ObjectAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -26,7 +30,9 @@ func (u *ItemAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) error {
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
 
@@ -35,6 +41,8 @@ func (u *ComponentAttr) Marshal3MF(_ spec.Encoder, start *xml.StartElement) erro
 	if u.Path != "" {
 		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrPath}, Value: u.Path})
 	}
-	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	if u.UUID != "" {
+		start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: Namespace, Local: attrProdUUID}, Value: u.UUID})
+	}
 	return nil
 }
-- 
2.43.0


From 349a91e2ac8760f8cae1d85924cd65f39d555772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 07/53] fix: copy the text kept from unknown elements

The parser reuses its buffer, so the text of unknown elements changed
while the rest of the document was decoded.
---
 read.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 9a474e0..c82eace 100644
--- a/read.go
+++ b/read.go
@@ -124,7 +124,8 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			currentDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
+			// The parser reuses the memory of tp.
+			appendDecoder.AppendToken(tp.Copy())
 		}
 	}
 	var i int
-- 
2.43.0


From eb91598830f3f7ee1a857b66afd9002cbca4ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 08/53] fix: match the end of an element by nesting and not by
 its name

An element ignored, or kept as tokens, that contained another one with
the name of an enclosing element ended the enclosing one, and the content
of ignored elements was decoded as if it was of their parent.
---
 read.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/read.go b/read.go
index c82eace..5a5bf1f 100644
--- a/read.go
+++ b/read.go
@@ -68,21 +68,27 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		name    xml.Name
 		i       int
 	}
+	var (
+		ignored  int // open elements inside of one that no decoder wants
+		appended int // open elements inside of one that keeps its tokens
+	)
 	stack := make([]stackElement, 0, 10)
 
 	var (
 		currentDecoder spec.ElementDecoder
-		currentName    xml.Name
 		errs           specerr.List
 	)
 	currentDecoder = &topLevelDecoder{isRoot: isRoot, model: model, path: path}
 	var err error
 	x.OnStart = func(tp xml3mf.StartElement) {
+		if ignored > 0 {
+			ignored++
+			return
+		}
 		if childDecoder, ok := currentDecoder.(spec.ChildElementDecoder); ok {
 			i, tmpDecoder := childDecoder.Child(tp.Name)
 			if tmpDecoder != nil {
 				stack = append(stack, stackElement{tmpDecoder, tp.Name, i})
-				currentName = tp.Name
 				currentDecoder = tmpDecoder
 				err := currentDecoder.Start(*(*[]spec.XMLAttr)(unsafe.Pointer(&tp.Attr)))
 				if err != nil {
@@ -92,6 +98,8 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 					}
 					specerr.Append(&errs, err)
 				}
+			} else {
+				ignored = 1
 			}
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
 			var xattrs []xml.Attr
@@ -105,22 +113,30 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 				Name: tp.Name,
 				Attr: xattrs,
 			})
+			appended++
+		} else {
+			ignored = 1
 		}
 	}
 	x.OnEnd = func(tp xml.EndElement) {
-		if currentName == tp.Name {
+		if ignored > 0 {
+			ignored--
+		} else if appended > 0 {
+			appended--
+			currentDecoder.(spec.AppendTokenElementDecoder).AppendToken(tp)
+		} else {
 			currentDecoder.End()
 			stack = stack[:len(stack)-1]
 			if len(stack) > 0 {
 				element := stack[len(stack)-1]
 				currentDecoder = element.decoder
-				currentName = element.name
 			}
-		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			appendDecoder.AppendToken(tp)
 		}
 	}
 	x.OnChar = func(tp xml.CharData) {
+		if ignored > 0 {
+			return
+		}
 		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
 			currentDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-- 
2.43.0


From 9e4c753d9ff555812655da230c06960fab449a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 09/53] fix: keep the whole value of a metadata element

A value interrupted by other markup was truncated to its last piece.
---
 decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 7e37521..f5a8584 100644
--- a/decoder.go
+++ b/decoder.go
@@ -140,6 +140,7 @@ type metadataDecoder struct {
 	model     *Model
 	metadatas *[]Metadata
 	metadata  Metadata
+	value     []byte
 }
 
 func (d *metadataDecoder) namespace(local string) (string, bool) {
@@ -178,10 +179,11 @@ func (d *metadataDecoder) Start(attrs []spec.XMLAttr) error {
 }
 
 func (d *metadataDecoder) CharData(txt []byte) {
-	d.metadata.Value = string(txt)
+	d.value = append(d.value, txt...)
 }
 
 func (d *metadataDecoder) End() {
+	d.metadata.Value = string(d.value)
 	*d.metadatas = append(*d.metadatas, d.metadata)
 }
 
-- 
2.43.0


From 37db039a395cea42ca70a0df9adb7d81bb544526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 10/53] fix: do not crash on attributes that a spec does not
 know

A spec returns no attribute group for the elements it does not extend,
and the decoder called it anyway. Keep those attributes as unknown ones.
---
 spec/spec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spec/spec.go b/spec/spec.go
index 2ec83d7..6bc00b0 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,7 +104,9 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		return ext.NewAttrGroup(parent)
+		if group := ext.NewAttrGroup(parent); group != nil {
+			return group
+		}
 	}
 	return &UnknownAttrs{
 		Space: namespace,
-- 
2.43.0


From 1f4e413501d6fa607ab860a1f01f24618f718cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 11/53] fix: do not crash on elements of a spec in an
 unexpected place

---
 decoder.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/decoder.go b/decoder.go
index f5a8584..1afe0fe 100644
--- a/decoder.go
+++ b/decoder.go
@@ -40,12 +40,15 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			}
 		}
 	} else {
+		i = -1
 		dec := spec.NewElementDecoder(name)
-		child = dec
-		if dec != nil {
-			d.model.Any = append(d.model.Any, dec.Element().(spec.Marshaler))
+		if dec == nil {
+			return
+		}
+		if element, ok := dec.Element().(spec.Marshaler); ok {
+			child = dec
+			d.model.Any = append(d.model.Any, element)
 		}
-		i = -1
 	}
 	return
 }
@@ -302,9 +305,15 @@ func (d *resourceDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder
 	} else if ext, ok := spec.Load(name.Space); ok {
 		dec := ext.NewElementDecoder(name)
 		i = len(d.resources.Assets)
-		child = dec
-		if dec != nil {
-			d.resources.Assets = append(d.resources.Assets, dec.Element().(Asset))
+		if dec == nil {
+			return
+		}
+		if asset, ok := dec.Element().(Asset); ok {
+			child = dec
+			d.resources.Assets = append(d.resources.Assets, asset)
+		} else {
+			// The element is known but it is not a resource.
+			child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
 		}
 	} else {
 		child = &unknownAssetDecoder{UnknownTokensDecoder: *spec.NewUnknownDecoder(name), resources: d.resources}
@@ -420,12 +429,15 @@ func (d *meshDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			i = -1
 		}
 	} else {
+		i = -1
 		dec := spec.NewElementDecoder(name)
-		child = dec
-		if dec != nil {
-			d.resource.Mesh.Any = append(d.resource.Mesh.Any, dec.Element().(spec.Marshaler))
+		if dec == nil {
+			return
+		}
+		if element, ok := dec.Element().(spec.Marshaler); ok {
+			child = dec
+			d.resource.Mesh.Any = append(d.resource.Mesh.Any, element)
 		}
-		i = -1
 	}
 	return
 }
-- 
2.43.0


From a636b3a61970e039285731a1b32e59210a830f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 12/53] fix: keep the elements and prefixes of a child model in
 its own part

---
 decoder.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1afe0fe..46ac9ce 100644
--- a/decoder.go
+++ b/decoder.go
@@ -19,6 +19,7 @@ type modelDecoder struct {
 	model  *Model
 	isRoot bool
 	path   string
+	part   *Model // declares the name space prefixes of a child model
 }
 
 func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
@@ -26,7 +27,11 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 		switch name.Local {
 		case attrResources:
 			resources, _ := d.model.FindResources(d.path)
-			child = &resourceDecoder{resources: resources, model: d.model}
+			part := d.model
+			if !d.isRoot {
+				part = d.part
+			}
+			child = &resourceDecoder{resources: resources, model: part}
 			i = -1
 		case attrBuild:
 			if d.isRoot {
@@ -46,8 +51,13 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 			return
 		}
 		if element, ok := dec.Element().(spec.Marshaler); ok {
-			child = dec
-			d.model.Any = append(d.model.Any, element)
+			if d.isRoot {
+				child = dec
+				d.model.Any = append(d.model.Any, element)
+			} else if childModel, ok := d.model.Childs[d.path]; ok {
+				child = dec
+				childModel.Any = append(childModel.Any, element)
+			}
 		}
 	}
 	return
@@ -55,6 +65,15 @@ func (d *modelDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 
 func (d *modelDecoder) Start(attrs []spec.XMLAttr) (err error) {
 	if !d.isRoot {
+		d.part = new(Model)
+		for _, a := range attrs {
+			if a.Name.Space == attrXmlns {
+				d.part.Extensions = append(d.part.Extensions, Extension{
+					Namespace: string(a.Value),
+					LocalName: a.Name.Local,
+				})
+			}
+		}
 		return
 	}
 	var requiredExts []string
-- 
2.43.0


From 06e2d7cbca1e4c5ae8286d2720d7ae20000bdb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 13/53] fix: preallocate the triangles of a mesh only once

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 46ac9ce..e7c17d2 100644
--- a/decoder.go
+++ b/decoder.go
@@ -531,7 +531,7 @@ func (d *trianglesDecoder) Start(attrs []spec.XMLAttr) error {
 	d.triangleDecoder.defaultPropertyID = d.resource.PID
 	d.triangleDecoder.defaultPropertyIndex = d.resource.PIndex
 
-	if len(d.resource.Mesh.Triangles.Triangle) == 0 && len(d.resource.Mesh.Vertices.Vertex) > 0 {
+	if cap(d.resource.Mesh.Triangles.Triangle) == 0 && len(d.resource.Mesh.Vertices.Vertex) > 0 {
 		d.resource.Mesh.Triangles.Triangle = make([]Triangle, 0, len(d.resource.Mesh.Vertices.Vertex)*2)
 	}
 	var errs error
-- 
2.43.0


From 89093366a25d53a5992e15ca7b81ebf1e5f2eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 14/53] fix: report the error that stopped the decoding of the
 child models

---
 read.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/read.go b/read.go
index 5a5bf1f..0fa7ef9 100644
--- a/read.go
+++ b/read.go
@@ -232,6 +232,7 @@ func (d *Decoder) processRootModel(ctx context.Context, rootFile packageFile, mo
 func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs error) {
 	var (
 		wg                 sync.WaitGroup
+		once               sync.Once
 		nonRootModelsCount = len(d.nonRootModels)
 	)
 	wg.Add(nonRootModelsCount)
@@ -242,8 +243,11 @@ func (d *Decoder) processNonRootModels(ctx context.Context, model *Model) (errs
 			defer wg.Done()
 			err := d.readChildModel(ctx, i, model)
 			if err != nil {
-				errs = err
-				cancel()
+				// The first error is the cause, the others can be due to the cancelation.
+				once.Do(func() {
+					errs = err
+					cancel()
+				})
 			}
 		}(i)
 	}
-- 
2.43.0


From b0cd2d4f7c7b470a192f607e3dcacb2eea33f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 15/53] fix: forget the child models of the previous decode

---
 read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/read.go b/read.go
index 0fa7ef9..d5b9565 100644
--- a/read.go
+++ b/read.go
@@ -262,6 +262,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if err := d.p.Open(d.flate); err != nil {
 		return nil, err
 	}
+	d.nonRootModels = nil
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
-- 
2.43.0


From 4da339bc64f170651c37a5c243dda4ae55902869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 16/53] fix: decode every child model once

---
 read.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/read.go b/read.go
index d5b9565..7a8cb1b 100644
--- a/read.go
+++ b/read.go
@@ -292,6 +292,9 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
 				if rel.Type == RelType3DModel {
+					if file.Name() == modelFile.Name() || d.hasNonRootModel(file.Name()) {
+						continue
+					}
 					d.nonRootModels = append(d.nonRootModels, file)
 					if model.Childs == nil {
 						model.Childs = make(map[string]*ChildModel)
@@ -311,6 +314,15 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 	}
 }
 
+func (d *Decoder) hasNonRootModel(name string) bool {
+	for _, f := range d.nonRootModels {
+		if f.Name() == name {
+			return true
+		}
+	}
+	return false
+}
+
 func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
 	for _, att := range attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-- 
2.43.0


From 8bd167bb69fa813c5c851a73de222a2abfc2b69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 17/53] fix: report the attachments that cannot be read

---
 read.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/read.go b/read.go
index 7a8cb1b..02b862e 100644
--- a/read.go
+++ b/read.go
@@ -272,13 +272,20 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 				return nil, errors.New("package root model points to an unexisting file")
 			}
 			model.Path = rootFile.Name()
-			d.extractCoreAttachments(rootFile, model, true)
+			if err := d.extractCoreAttachments(rootFile, model, true); err != nil {
+				return nil, err
+			}
 			for _, file := range d.nonRootModels {
-				d.extractCoreAttachments(file, model, false)
+				if err := d.extractCoreAttachments(file, model, false); err != nil {
+					return nil, err
+				}
 			}
 		} else if att, ok := d.p.FindFileFromName(r.Path); ok {
 			model.RootRelationships = append(model.RootRelationships, r)
-			model.Attachments = d.addAttachment(model.Attachments, att)
+			var err error
+			if model.Attachments, err = d.addAttachment(model.Attachments, att); err != nil {
+				return nil, err
+			}
 		}
 	}
 	if rootFile == nil {
@@ -287,7 +294,7 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	return rootFile, nil
 }
 
-func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) {
+func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) (err error) {
 	for _, rel := range modelFile.Relationships() {
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
 			if isRoot {
@@ -301,17 +308,22 @@ func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, is
 					}
 					model.Childs[file.Name()] = new(ChildModel)
 				} else {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if model.Attachments, err = d.addAttachment(model.Attachments, file); err != nil {
+						return err
+					}
 					model.Relationships = append(model.Relationships, rel)
 				}
 			} else if rel.Type != RelType3DModel {
 				if child, ok := model.Childs[modelFile.Name()]; ok {
-					model.Attachments = d.addAttachment(model.Attachments, file)
+					if model.Attachments, err = d.addAttachment(model.Attachments, file); err != nil {
+						return err
+					}
 					child.Relationships = append(child.Relationships, rel)
 				}
 			}
 		}
 	}
+	return nil
 }
 
 func (d *Decoder) hasNonRootModel(name string) bool {
@@ -323,20 +335,21 @@ func (d *Decoder) hasNonRootModel(name string) bool {
 	return false
 }
 
-func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) []Attachment {
+func (d *Decoder) addAttachment(attachments []Attachment, file packageFile) ([]Attachment, error) {
 	for _, att := range attachments {
 		if strings.EqualFold(att.Path, file.Name()) {
-			return attachments
+			return attachments, nil
 		}
 	}
-	if buff, err := copyFile(file); err == nil {
-		return append(attachments, Attachment{
-			Path:        file.Name(),
-			Stream:      buff,
-			ContentType: file.ContentType(),
-		})
+	buff, err := copyFile(file)
+	if err != nil {
+		return attachments, err
 	}
-	return attachments
+	return append(attachments, Attachment{
+		Path:        file.Name(),
+		Stream:      buff,
+		ContentType: file.ContentType(),
+	}), nil
 }
 
 func (d *Decoder) readChildModel(ctx context.Context, i int, model *Model) error {
-- 
2.43.0


From 44797354ba4181635b96bae8ab43aca724a429d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 18/53] fix: read comments and CDATA sections

---
 internal/xml/xml.go | 92 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 92 insertions(+)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 2608fec..1367762 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -407,6 +407,21 @@ func (d *Decoder) RawToken() error {
 			b0 = b
 		}
 		return nil
+
+	case '!':
+		// <!: Comment or CDATA section, directives are not supported.
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		switch b {
+		case '-':
+			return d.comment()
+		case '[':
+			return d.cdata()
+		}
+		d.err = d.syntaxError("expected comment or CDATA section after <!")
+		return d.err
 	}
 
 	// Must be an open element like <a href="foo">
@@ -487,6 +502,83 @@ func (d *Decoder) RawToken() error {
 	return nil
 }
 
+// Skip a comment, the opening <!- has already been read.
+func (d *Decoder) comment() error {
+	b, ok := d.getc()
+	if !ok {
+		d.mustNotEOF()
+		return d.err
+	}
+	if b != '-' {
+		d.err = d.syntaxError("invalid sequence <!- not part of <!--")
+		return d.err
+	}
+	// Look for the terminator.
+	var b0, b1 byte
+	for {
+		if b, ok = d.getc(); !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b0 == '-' && b1 == '-' {
+			if b != '>' {
+				d.err = d.syntaxError(`invalid sequence "--" not allowed in comments`)
+				return d.err
+			}
+			return nil
+		}
+		b0, b1 = b1, b
+	}
+}
+
+// Read a CDATA section as plain text, the opening <![ has already been read.
+func (d *Decoder) cdata() error {
+	const open = "CDATA["
+	for i := 0; i < len(open); i++ {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if b != open[i] {
+			d.err = d.syntaxError("invalid <![ sequence")
+			return d.err
+		}
+	}
+	d.buf.Reset()
+	var (
+		end int // matched bytes of the closing ]]>
+		b1  byte
+	)
+	for {
+		b, ok := d.getc()
+		if !ok {
+			d.mustNotEOF()
+			return d.err
+		}
+		if end == 2 && b == '>' {
+			d.buf.Truncate(d.buf.Len() - end)
+			break
+		}
+		if b != ']' {
+			end = 0
+		} else if end < 2 {
+			end++
+		}
+		// We must rewrite unescaped \r and \r\n into \n.
+		if b == '\r' {
+			d.buf.WriteByte('\n')
+		} else if b1 != '\r' || b != '\n' {
+			d.buf.WriteByte(b)
+		}
+		b1 = b
+	}
+	if d.OnChar != nil && d.buf.Len() > 0 {
+		d.OnChar(goxml.CharData(d.buf.Bytes()))
+	}
+	return nil
+}
+
 func (d *Decoder) attrval() []byte {
 	b, ok := d.getc()
 	if !ok {
-- 
2.43.0


From 3c7cbb14eb288b4496ad980fb14eb202e2a3d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:52 +0000
Subject: [PATCH 19/53] fix: index the errors of a segment by its position in
 the polygon

---
 slices/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index 4dd286a..c1b3249 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -214,7 +214,7 @@ type polygonDecoder struct {
 func (d *polygonDecoder) Child(name xml.Name) (i int, child spec.ElementDecoder) {
 	if name.Space == Namespace && name.Local == attrSegment {
 		child = &d.polygonSegmentDecoder
-		i = len(d.slice.Polygons)
+		i = len(d.polygonSegmentDecoder.polygon.Segments)
 	}
 	return
 }
-- 
2.43.0


From 5dff6954effc47f87e99f0a73c5c06b292dca793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:53 +0000
Subject: [PATCH 20/53] fix: ignore the attributes of other name spaces in
 slices

---
 slices/decoder.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/slices/decoder.go b/slices/decoder.go
index c1b3249..4f4e9d4 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -72,6 +72,9 @@ func (d *sliceStackDecoder) Child(name xml.Name) (i int, child spec.ElementDecod
 func (d *sliceStackDecoder) Start(attrs []spec.XMLAttr) error {
 	var errs error
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrID:
 			id, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -102,6 +105,9 @@ func (d *sliceRefDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		switch a.Name.Local {
 		case attrSliceRefID:
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
@@ -148,7 +154,7 @@ func (d *sliceDecoder) Start(attrs []spec.XMLAttr) error {
 	d.polygonVerticesDecoder.slice = &d.slice
 	var errs error
 	for _, a := range attrs {
-		if a.Name.Local == attrZTop {
+		if a.Name.Space == "" && a.Name.Local == attrZTop {
 			val, err := strconv.ParseFloat(string(a.Value), 32)
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -190,6 +196,9 @@ func (d *polygonVertexDecoder) Start(attrs []spec.XMLAttr) error {
 		errs error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		val, err := strconv.ParseFloat(string(a.Value), 32)
 		if err != nil {
 			errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -225,7 +234,7 @@ func (d *polygonDecoder) Start(attrs []spec.XMLAttr) error {
 	d.slice.Polygons = append(d.slice.Polygons, Polygon{})
 	d.polygonSegmentDecoder.polygon = &d.slice.Polygons[polygonIndex]
 	for _, a := range attrs {
-		if a.Name.Local == attrStartV {
+		if a.Name.Space == "" && a.Name.Local == attrStartV {
 			val, err := strconv.ParseUint(string(a.Value), 10, 32)
 			if err != nil {
 				errs = specerr.Append(errs, specerr.NewParseAttrError(a.Name.Local, true))
@@ -249,6 +258,9 @@ func (d *polygonSegmentDecoder) Start(attrs []spec.XMLAttr) error {
 		errs         error
 	)
 	for _, a := range attrs {
+		if a.Name.Space != "" {
+			continue
+		}
 		var required bool
 		val, err := strconv.ParseUint(string(a.Value), 10, 32)
 		switch a.Name.Local {
-- 
2.43.0


From a9e91cb3f55692f87895887bf7192fe6cd5dca63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 21/53] fix: do not trust the face count of a binary STL

---
 importer/stl/binary.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index dce85a7..d3b15f6 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -11,6 +11,8 @@ import (
 	"github.com/hpinc/go3mf"
 )
 
+const maxInitialFaces = 1 << 16
+
 type binaryHeader struct {
 	_         [80]byte
 	FaceCount uint32
@@ -35,7 +37,12 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 	if err != nil {
 		return err
 	}
-	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, header.FaceCount)
+	initialFaces := header.FaceCount
+	if initialFaces > maxInitialFaces {
+		// The face count cannot be trusted until the faces are read.
+		initialFaces = maxInitialFaces
+	}
+	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, initialFaces)
 	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
 	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
-- 
2.43.0


From e8ff39d6a60bb68d1062cb3f8fef17923f8dec35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 22/53] fix: stop reading a binary STL when it is canceled

---
 importer/stl/binary.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index d3b15f6..d222754 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -54,8 +54,7 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		if len(m.Triangles.Triangle) > nextFaceCheck {
 			select {
 			case <-ctx.Done():
-				err = ctx.Err()
-				break
+				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
 			nextFaceCheck += checkEveryFaces
-- 
2.43.0


From 580dffd1a69c59cce3c83189a1cf0daa4af0a1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 23/53] fix: report the errors reading the header of a STL

---
 importer/stl/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index 82fd9b1..f26f759 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -62,7 +62,7 @@ func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 	var header string
 	for {
 		buff, err := r.Peek(sizeOfHeader)
-		if err == io.EOF {
+		if err != nil {
 			return false, err
 		}
 		if len(buff) >= sizeOfHeader {
-- 
2.43.0


From 9ed595d0b88deefbe5a88085444b59531ee250c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 24/53] fix: do not merge far vertices when their coordinates
 overflow

---
 math.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/math.go b/math.go
index 4612e0b..2a91a4a 100644
--- a/math.go
+++ b/math.go
@@ -35,20 +35,21 @@ func newPairEntry(data1, data2 uint32) pairEntry {
 	return pairEntry{data2, data1}
 }
 
-// vec3I represents a 3D vector typed as int32
+// vec3I represents a 3D vector with integer coordinates.
+// They are stored as floats because they can be bigger than any integer type.
 type vec3I struct {
-	X int32 // X coordinate
-	Y int32 // Y coordinate
-	Z int32 // Z coordinate
+	X float64 // X coordinate
+	Y float64 // Y coordinate
+	Z float64 // Z coordinate
 }
 
 const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: int32(math.Floor(float64(vec.X() / micronsAccuracy))),
-		Y: int32(math.Floor(float64(vec.Y() / micronsAccuracy))),
-		Z: int32(math.Floor(float64(vec.Z() / micronsAccuracy))),
+		X: math.Floor(float64(vec.X() / micronsAccuracy)),
+		Y: math.Floor(float64(vec.Y() / micronsAccuracy)),
+		Z: math.Floor(float64(vec.Z() / micronsAccuracy)),
 	}
 	return a
 }
-- 
2.43.0


From 4e939a6afc73fb6b2850cb7736ed4393634f29e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 25/53] fix: find the lowest unused ID when there are repeated
 IDs

---
 core.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/core.go b/core.go
index 0d2d16a..6cd47fa 100644
--- a/core.go
+++ b/core.go
@@ -7,7 +7,6 @@ import (
 	"encoding/xml"
 	"image/color"
 	"io"
-	"sort"
 	"sync"
 
 	"github.com/hpinc/go3mf/spec"
@@ -140,27 +139,20 @@ func (rs *Resources) UnusedID() uint32 {
 	if len(rs.Assets) == 0 && len(rs.Objects) == 0 {
 		return 1
 	}
-	ids := make([]int, len(rs.Assets)+len(rs.Objects)+1)
-	ids[0] = 0
-	for i, r := range rs.Assets {
-		id := r.Identify()
-		ids[i+1] = int(id)
+	ids := make(map[uint32]struct{}, len(rs.Assets)+len(rs.Objects))
+	for _, r := range rs.Assets {
+		ids[r.Identify()] = struct{}{}
 	}
-	for i, o := range rs.Objects {
-		ids[len(rs.Assets)+i+1] = int(o.ID)
+	for _, o := range rs.Objects {
+		ids[o.ID] = struct{}{}
 	}
-	sort.Ints(ids)
-	lowest := 0
-	for i, id := range ids {
-		if id != i {
-			lowest = i
-			break
+	lowest := uint32(1)
+	for {
+		if _, ok := ids[lowest]; !ok {
+			return lowest
 		}
+		lowest++
 	}
-	if lowest == 0 {
-		lowest = ids[len(ids)-1] + 1
-	}
-	return uint32(lowest)
 }
 
 // FindObject returns the resource with the target ID.
-- 
2.43.0


From 6bf643c314c86eb0a16b0794cc61d4876f971796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 26/53] fix: compute the bounding box of nested, empty and
 circular components

---
 core.go | 54 +++++++++++++++++++++++++++++++++++++++++-------------
 math.go |  2 --
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/core.go b/core.go
index 6cd47fa..1e316c2 100644
--- a/core.go
+++ b/core.go
@@ -230,8 +230,11 @@ func (m *Model) BoundingBox() Box {
 	if len(m.Build.Items) == 0 {
 		return Box{}
 	}
-	var wg sync.WaitGroup
-	var mu sync.Mutex
+	var (
+		wg    sync.WaitGroup
+		mu    sync.Mutex
+		found bool
+	)
 	box := newLimitBox()
 	wg.Add(len(m.Build.Items))
 	for i := range m.Build.Items {
@@ -239,16 +242,19 @@ func (m *Model) BoundingBox() Box {
 			defer wg.Done()
 			item := m.Build.Items[i]
 			if o, ok := m.FindObject(item.ObjectPath(), item.ObjectID); ok {
-				ibox := o.boundingBox(m, item.ObjectPath())
-				if ibox != emptyBox {
+				if ibox, ok := o.boundingBox(m, item.ObjectPath(), make(map[objectKey]*objectBox)); ok {
 					mu.Lock()
 					box = box.extend(item.Transform.MulBox(ibox))
+					found = true
 					mu.Unlock()
 				}
 			}
 		}(i)
 	}
 	wg.Wait()
+	if !found {
+		return Box{}
+	}
 	return box
 }
 
@@ -405,23 +411,45 @@ type Object struct {
 	AnyAttr    spec.AnyAttr
 }
 
-func (o *Object) boundingBox(m *Model, path string) Box {
+type objectKey struct {
+	object *Object
+	path   string
+}
+
+type objectBox struct {
+	box Box
+	ok  bool
+}
+
+// boundingBox returns the bounding box of the object and false if it does not have any vertex.
+// The visited objects are not processed twice, so circular references are ignored.
+func (o *Object) boundingBox(m *Model, path string, visited map[objectKey]*objectBox) (Box, bool) {
 	if o.Mesh != nil {
-		return o.Mesh.BoundingBox()
+		return o.Mesh.BoundingBox(), len(o.Mesh.Vertices.Vertex) > 0
 	}
-	if o.Components == nil || len(o.Components.Component) == 0 {
-		return Box{}
+	if o.Components == nil {
+		return Box{}, false
 	}
-	box := newLimitBox()
+	key := objectKey{o, path}
+	if v, ok := visited[key]; ok {
+		return v.box, v.ok
+	}
+	v := new(objectBox)
+	visited[key] = v
+	box, found := newLimitBox(), false
 	for _, c := range o.Components.Component {
-		if obj, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-			cbox := obj.boundingBox(m, path)
-			if cbox != emptyBox {
+		cpath := c.ObjectPath(path)
+		if obj, ok := m.FindObject(cpath, c.ObjectID); ok {
+			if cbox, ok := obj.boundingBox(m, cpath, visited); ok {
 				box = box.extend(c.Transform.MulBox(cbox))
+				found = true
 			}
 		}
 	}
-	return box
+	if found {
+		v.box, v.ok = box, true
+	}
+	return v.box, v.ok
 }
 
 // A Components is an in memory representation of the 3MF components.
diff --git a/math.go b/math.go
index 2a91a4a..0de9702 100644
--- a/math.go
+++ b/math.go
@@ -201,8 +201,6 @@ type Box struct {
 	Max Point3D
 }
 
-var emptyBox = Box{}
-
 func newLimitBox() Box {
 	return Box{
 		Min: Point3D{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32},
-- 
2.43.0


From 3550cc4a815335fce227dc7468bf64c2beb7f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 27/53] fix: enclose the eight corners of a transformed box

---
 math.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/math.go b/math.go
index 0de9702..0517557 100644
--- a/math.go
+++ b/math.go
@@ -179,18 +179,14 @@ func (m1 Matrix) MulBox(b Box) Box {
 	if m1[15] == 0 {
 		return b
 	}
-	box := Box{
-		Min: m1.Mul3D(b.Min),
-		Max: m1.Mul3D(b.Max),
-	}
-	if box.Min.X() > box.Max.X() {
-		box.Min[0], box.Max[0] = box.Max[0], box.Min[0]
-	}
-	if box.Min.Y() > box.Max.Y() {
-		box.Min[1], box.Max[1] = box.Max[1], box.Min[1]
-	}
-	if box.Min.Z() > box.Max.Z() {
-		box.Min[2], box.Max[2] = box.Max[2], box.Min[2]
+	// The corners of the box can be swapped in any axis.
+	box := newLimitBox()
+	for _, x := range [2]float32{b.Min.X(), b.Max.X()} {
+		for _, y := range [2]float32{b.Min.Y(), b.Max.Y()} {
+			for _, z := range [2]float32{b.Min.Z(), b.Max.Z()} {
+				box = box.extendPoint(m1.Mul3D(Point3D{x, y, z}))
+			}
+		}
 	}
 	return box
 }
-- 
2.43.0


From 7cf22d12022e09bf612388e0ab88571677725897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 28/53] fix: follow nested and circular components when
 validating the slice transforms

---
 slices/validate.go | 51 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/slices/validate.go b/slices/validate.go
index 1a5164d..90dee40 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -186,43 +186,44 @@ func checkAllClosed(m *go3mf.Model, r *SliceStack) bool {
 }
 
 func validateBuildTransforms(m *go3mf.Model, path string, id uint32) bool {
+	target, ok := m.FindObject(path, id)
+	if !ok {
+		return true
+	}
+	visited := make(map[*go3mf.Object]struct{})
 	for _, item := range m.Build.Items {
-		targetPath := item.ObjectPath()
-		if targetPath == "" {
-			targetPath = path
+		o, ok := m.FindObject(item.ObjectPath(), item.ObjectID)
+		if !ok {
+			continue
 		}
-		if item.ObjectID == id && targetPath == path {
-			if item.HasTransform() && !validTransform(item.Transform) {
-				return false
-			}
+		if o == target && item.HasTransform() && !validTransform(item.Transform) {
+			return false
 		}
-		if o, ok := m.FindObject(targetPath, item.ObjectID); ok {
-			if !validateObjectTransforms(m, o, path, id) {
-				return false
-			}
+		if !validateObjectTransforms(m, o, item.ObjectPath(), target, visited) {
+			return false
 		}
 	}
 	return true
 }
 
-func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, path string, id uint32) bool {
-	if o.Components == nil {
+// validateObjectTransforms checks the components of an object which is in path.
+// The visited objects are not processed twice, so circular references are ignored.
+func validateObjectTransforms(m *go3mf.Model, o *go3mf.Object, path string, target *go3mf.Object, visited map[*go3mf.Object]struct{}) bool {
+	if _, ok := visited[o]; ok || o.Components == nil {
 		return true
 	}
+	visited[o] = struct{}{}
 	for _, c := range o.Components.Component {
-		if c.ObjectID == id && c.ObjectPath(path) == path {
-			if c.HasTransform() && !validTransform(c.Transform) {
-				return false
-			}
+		cpath := c.ObjectPath(path)
+		o1, ok := m.FindObject(cpath, c.ObjectID)
+		if !ok {
+			continue
 		}
-		if c.ObjectID == o.ID && c.ObjectPath(path) == path { // avoid circular references
-			break
-		} else {
-			if o1, ok := m.FindObject(c.ObjectPath(path), c.ObjectID); ok {
-				if !validateObjectTransforms(m, o1, path, id) {
-					return false
-				}
-			}
+		if o1 == target && c.HasTransform() && !validTransform(c.Transform) {
+			return false
+		}
+		if !validateObjectTransforms(m, o1, cpath, target, visited) {
+			return false
 		}
 	}
 	return true
-- 
2.43.0


From 20f70211c008810264f92a2a145a524682cb1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 29/53] fix: compare the references of a beam set with the
 number of beams

---
 beamlattice/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beamlattice/validate.go b/beamlattice/validate.go
index 887dc16..8d94ca5 100644
--- a/beamlattice/validate.go
+++ b/beamlattice/validate.go
@@ -61,7 +61,7 @@ func validateObject(m *go3mf.Model, path string, obj *go3mf.Object) error {
 	}
 	for i, set := range bl.BeamSets.BeamSet {
 		for _, ref := range set.Refs {
-			if int(ref) >= len(set.Refs) {
+			if int(ref) >= len(bl.Beams.Beam) {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrBeamSet, i))
 				break
 			}
-- 
2.43.0


From 86638dff58a599b98f4a2c6b30890cde03ddd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 30/53] fix: reject a composite index equal to the number of
 materials

---
 materials/validate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/materials/validate.go b/materials/validate.go
index a3e8eed..a91d558 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -157,7 +157,7 @@ func validateCompositeMat(m *go3mf.Model, path string, r *CompositeMaterials) (e
 	} else if mat, ok := m.FindAsset(path, r.MaterialID); ok {
 		if bm, ok := mat.(*go3mf.BaseMaterials); ok {
 			for _, index := range r.Indices {
-				if int(index) > len(bm.Materials) {
+				if int(index) >= len(bm.Materials) {
 					errs = errors.Append(errs, errors.ErrIndexOutOfBounds)
 					break
 				}
-- 
2.43.0


From 2a8b56643c70b23d312026db1f57d3455e2d0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 31/53] fix: check the multi indices against the length of any
 property group

---
 materials/validate.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/materials/validate.go b/materials/validate.go
index a91d558..064f1a7 100644
--- a/materials/validate.go
+++ b/materials/validate.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/hpinc/go3mf"
 	"github.com/hpinc/go3mf/errors"
+	"github.com/hpinc/go3mf/spec"
 )
 
 func (Spec) Validate(model interface{}, path string, asset interface{}) error {
@@ -108,21 +109,23 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 	var (
 		colorCount        int
 		resourceUndefined bool
-		lengths           = make([]int, len(r.PIDs))
+		lengths           = make([]int, len(r.PIDs)) // negative if unknown
 	)
 	for j, pid := range r.PIDs {
+		lengths[j] = -1
 		if pr, ok := m.FindAsset(path, pid); ok {
-			switch pr := pr.(type) {
+			if group, ok := pr.(spec.PropertyGroup); ok {
+				lengths[j] = group.Len()
+			}
+			switch pr.(type) {
 			case *go3mf.BaseMaterials:
 				if j != 0 {
 					errs = errors.Append(errs, ErrMaterialMulti)
 				}
-				lengths[j] = len(pr.Materials)
 			case *CompositeMaterials:
 				if j != 0 {
 					errs = errors.Append(errs, ErrMaterialMulti)
 				}
-				lengths[j] = len(pr.Composites)
 			case *MultiProperties:
 				errs = errors.Append(errs, ErrMultiRefMulti)
 			case *ColorGroup:
@@ -130,7 +133,6 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 					errs = errors.Append(errs, ErrMultiColors)
 				}
 				colorCount++
-				lengths[j] = len(pr.Colors)
 			}
 		} else if !resourceUndefined {
 			resourceUndefined = true
@@ -139,7 +141,7 @@ func validateMultiProps(m *go3mf.Model, path string, r *MultiProperties) (errs e
 	}
 	for j, multi := range r.Multis {
 		for k, index := range multi.PIndices {
-			if k < len(r.PIDs) && lengths[k] < int(index) {
+			if k < len(r.PIDs) && lengths[k] >= 0 && int(index) >= lengths[k] {
 				errs = errors.Append(errs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrMulti, j))
 				break
 			}
-- 
2.43.0


From 7d06e1cc4605c0bb00b20b5fad2b397dd17287b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 32/53] fix: check the braces of a Microsoft UUID

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 27b62d4..7c00acb 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -105,6 +105,9 @@ func validateUUID(s string) error {
 
 	// {xxxxxxxx-xxxx-xxxx-xxxx-xxxxxxxxxxxx}
 	case 36 + 2:
+		if s[0] != '{' || s[37] != '}' {
+			return errors.New("production: invalid UUID format")
+		}
 		s = s[1:]
 
 	// xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx
-- 
2.43.0


From 28dcdece35614c6b92dcc9084168bb1513b289a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 33/53] fix: set the UUID of the build when it is empty

---
 production/production.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/production/production.go b/production/production.go
index ce4dce7..fa66446 100644
--- a/production/production.go
+++ b/production/production.go
@@ -127,8 +127,10 @@ func (p *ComponentAttr) getUUID() string {
 // SetMissingUUIDs traverse all the model tree setting
 // all missing UUID attributes.
 func SetMissingUUIDs(m *go3mf.Model) {
-	if GetBuildAttr(&m.Build) == nil {
+	if ext := GetBuildAttr(&m.Build); ext == nil {
 		m.Build.AnyAttr = append(m.Build.AnyAttr, &BuildAttr{UUID: uuid.New()})
+	} else if ext.UUID == "" {
+		ext.UUID = uuid.New()
 	}
 	for _, item := range m.Build.Items {
 		ext := GetItemAttr(item)
-- 
2.43.0


From 7ae80811db80b82e7f894ba8579c85238287c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 34/53] fix: encode the transforms with the precision of the
 encoder

---
 encoder.go |  4 ++--
 math.go    | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/encoder.go b/encoder.go
index e7e856b..995fc32 100644
--- a/encoder.go
+++ b/encoder.go
@@ -299,7 +299,7 @@ func (e *Encoder) writeBuild(x spec.Encoder, m *Model) {
 		}}
 		if item.HasTransform() {
 			xi.Attr = append(xi.Attr, xml.Attr{
-				Name: xml.Name{Local: attrTransform}, Value: item.Transform.String(),
+				Name: xml.Name{Local: attrTransform}, Value: item.Transform.format(x.FloatPresicion()),
 			})
 		}
 		if item.PartNumber != "" {
@@ -428,7 +428,7 @@ func (e *Encoder) writeComponents(x spec.Encoder, comps *Components) {
 			},
 		}
 		if c.HasTransform() {
-			xt.Attr = append(xt.Attr, xml.Attr{Name: xml.Name{Local: attrTransform}, Value: c.Transform.String()})
+			xt.Attr = append(xt.Attr, xml.Attr{Name: xml.Name{Local: attrTransform}, Value: c.Transform.format(x.FloatPresicion())})
 		}
 		c.AnyAttr.Marshal3MF(x, &xt)
 		x.EncodeToken(xt)
diff --git a/math.go b/math.go
index 0517557..a7b5bb8 100644
--- a/math.go
+++ b/math.go
@@ -6,6 +6,7 @@ package go3mf
 import (
 	"fmt"
 	"math"
+	"strconv"
 )
 
 type pairEntry struct {
@@ -115,6 +116,18 @@ func (m1 Matrix) String() string {
 		m1[0], m1[1], m1[2], m1[4], m1[5], m1[6], m1[8], m1[9], m1[10], m1[12], m1[13], m1[14])
 }
 
+// format returns the string representation of a Matrix with the desired float precision.
+func (m1 Matrix) format(prec int) string {
+	var b []byte
+	for _, i := range [12]int{0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14} {
+		if len(b) > 0 {
+			b = append(b, ' ')
+		}
+		b = strconv.AppendFloat(b, float64(m1[i]), 'f', prec, 32)
+	}
+	return string(b)
+}
+
 // Identity returns the 4x4 identity matrix.
 // The identity matrix is a square matrix with the value 1 on its
 // diagonals. The characteristic property of the identity matrix is that
-- 
2.43.0


From 1826ee849a61ee2eaac934be1a8fc6833abda684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 35/53] fix: keep the text of unknown elements

The decoder was shadowed, so the text was never appended. The white space
between elements is still skipped.
---
 read.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/read.go b/read.go
index 02b862e..7a6d3da 100644
--- a/read.go
+++ b/read.go
@@ -137,11 +137,14 @@ func decodeModelFile(ctx context.Context, r io.Reader, model *Model, path string
 		if ignored > 0 {
 			return
 		}
-		if currentDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
-			currentDecoder.CharData(tp)
+		if charDecoder, ok := currentDecoder.(spec.CharDataElementDecoder); ok {
+			charDecoder.CharData(tp)
 		} else if appendDecoder, ok := currentDecoder.(spec.AppendTokenElementDecoder); ok {
-			// The parser reuses the memory of tp.
-			appendDecoder.AppendToken(tp.Copy())
+			// Skip the white space between elements.
+			if len(bytes.Trim(tp, " \t\r\n")) > 0 {
+				// The parser reuses the memory of tp.
+				appendDecoder.AppendToken(tp.Copy())
+			}
 		}
 	}
 	var i int
-- 
2.43.0


From 89f0f91d841d90d8f2975edb841d97ce185ce258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 36/53] fix: match the end of an element by its prefix

An element was closed by a name with any other prefix bound to the same
name space, which is not well-formed XML.
---
 internal/xml/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/xml/xml.go b/internal/xml/xml.go
index 1367762..3cc4fb7 100644
--- a/internal/xml/xml.go
+++ b/internal/xml/xml.go
@@ -136,18 +136,17 @@ func (d *Decoder) handleStartElement(t StartElement) {
 		}
 	}
 
+	d.pushElement(t.Name)
 	d.translate(&t.Name, true)
 	for i := range t.Attr {
 		d.translate(&t.Attr[i].Name, false)
 	}
-	d.pushElement(t.Name)
 	if d.OnStart != nil {
 		d.OnStart(t)
 	}
 }
 
 func (d *Decoder) handleEndElement(t goxml.EndElement) bool {
-	d.translate(&t.Name, true)
 	if d.popElement(&t) {
 		if d.OnEnd != nil {
 			d.OnEnd(t)
@@ -300,6 +299,7 @@ func (d *Decoder) popElement(t *goxml.EndElement) bool {
 			"closed by </" + name.Local + "> in space " + name.Space)
 		return false
 	}
+	d.translate(&t.Name, true)
 
 	// Pop stack until a Start or EOF is on the top, undoing the
 	// translations that were associated with the element we just closed.
-- 
2.43.0


From b3110a6f5681d3a8bfcd9be6255a74d8cc83e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 37/53] fix: keep the repairs of Any and NewAttrGroup out of
 the spec package

Encode every element of an Any extension point from the encoder, and let
each spec keep the attributes it does not know as unknown attributes, so
that the spec package is as it was.
---
 beamlattice/decoder.go |  2 +-
 encoder.go             | 13 ++++++++++---
 materials/decoder.go   |  2 +-
 production/decoder.go  |  2 +-
 slices/decoder.go      |  2 +-
 spec/spec.go           |  6 ++----
 6 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/beamlattice/decoder.go b/beamlattice/decoder.go
index ede9196..ea2fc70 100644
--- a/beamlattice/decoder.go
+++ b/beamlattice/decoder.go
@@ -12,7 +12,7 @@ import (
 )
 
 func (Spec) NewAttrGroup(xml.Name) spec.AttrGroup {
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (Spec) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
diff --git a/encoder.go b/encoder.go
index 995fc32..d07d1ad 100644
--- a/encoder.go
+++ b/encoder.go
@@ -258,7 +258,7 @@ func (e *Encoder) writeChildModel(x spec.Encoder, m *Model, child *ChildModel) e
 	xb := xml.StartElement{Name: xml.Name{Local: attrBuild}}
 	x.EncodeToken(xb)
 	x.EncodeToken(xb.End())
-	child.Any.Marshal3MF(x, &tm)
+	e.writeAny(x, child.Any, &tm)
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
@@ -275,11 +275,18 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 		return err
 	}
 	e.writeBuild(x, m)
-	m.Any.Marshal3MF(x, &tm)
+	e.writeAny(x, m.Any, &tm)
 	x.EncodeToken(tm.End())
 	return x.Flush()
 }
 
+// writeAny encodes all the elements of an extension point.
+func (e *Encoder) writeAny(x spec.Encoder, elements spec.Any, start *xml.StartElement) {
+	for _, ext := range elements {
+		ext.Marshal3MF(x, start)
+	}
+}
+
 func (e *Encoder) writeMetadataGroup(x spec.Encoder, m MetadataGroup) {
 	xm := xml.StartElement{Name: xml.Name{Local: attrMetadataGroup}}
 	m.AnyAttr.Marshal3MF(x, &xm)
@@ -524,7 +531,7 @@ func (e *Encoder) writeMesh(x spec.Encoder, r *Object, m *Mesh) {
 	e.writeVertices(x, m)
 	e.writeTriangles(x, r, m)
 
-	m.Any.Marshal3MF(x, &xm)
+	e.writeAny(x, m.Any, &xm)
 	x.EncodeToken(xm.End())
 }
 
diff --git a/materials/decoder.go b/materials/decoder.go
index b038fb9..03c170a 100644
--- a/materials/decoder.go
+++ b/materials/decoder.go
@@ -13,7 +13,7 @@ import (
 )
 
 func (Spec) NewAttrGroup(xml.Name) spec.AttrGroup {
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (Spec) NewElementDecoder(name xml.Name) (child spec.GetterElementDecoder) {
diff --git a/production/decoder.go b/production/decoder.go
index 66ba0d0..b57926f 100644
--- a/production/decoder.go
+++ b/production/decoder.go
@@ -29,7 +29,7 @@ func (Spec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
 			return new(ComponentAttr)
 		}
 	}
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (u *BuildAttr) Unmarshal3MFAttr(a spec.XMLAttr) error {
diff --git a/slices/decoder.go b/slices/decoder.go
index 4f4e9d4..bf3516f 100644
--- a/slices/decoder.go
+++ b/slices/decoder.go
@@ -26,7 +26,7 @@ func (Spec) NewAttrGroup(parent xml.Name) spec.AttrGroup {
 			return new(ObjectAttr)
 		}
 	}
-	return nil
+	return &spec.UnknownAttrs{Space: Namespace}
 }
 
 func (u *ObjectAttr) Unmarshal3MFAttr(a spec.XMLAttr) error {
diff --git a/spec/spec.go b/spec/spec.go
index 6bc00b0..9faae81 100644
--- a/spec/spec.go
+++ b/spec/spec.go
@@ -104,9 +104,7 @@ func (a AnyAttr) Marshal3MF(x Encoder, start *xml.StartElement) error {
 
 func NewAttrGroup(namespace string, parent xml.Name) AttrGroup {
 	if ext, ok := Load(namespace); ok {
-		if group := ext.NewAttrGroup(parent); group != nil {
-			return group
-		}
+		return ext.NewAttrGroup(parent)
 	}
 	return &UnknownAttrs{
 		Space: namespace,
@@ -125,7 +123,7 @@ type Any []Marshaler
 
 func (e Any) Marshal3MF(x Encoder, start *xml.StartElement) error {
 	for _, ext := range e {
-		if err := ext.Marshal3MF(x, start); err != nil {
+		if err := ext.Marshal3MF(x, start); err == nil {
 			return err
 		}
 	}
-- 
2.43.0


From 86a477524ab5914a8a967e208f0c6664b9984e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 38/53] fix: read the vertices of an upper case ASCII STL

---
 importer/stl/ascii.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index d73e4c0..ed18825 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -28,7 +28,7 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	for scanner.Scan() {
 		line := scanner.Text()
 		fields := strings.Fields(line)
-		if len(fields) == 4 && fields[0] == "vertex" {
+		if len(fields) == 4 && strings.EqualFold(fields[0], "vertex") {
 			var f [3]float64
 			f[0], _ = strconv.ParseFloat(fields[1], 32)
 			f[1], _ = strconv.ParseFloat(fields[2], 32)
-- 
2.43.0


From 04ee14a95c4403ac94d6d9f6b3780d1c3efb1b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 39/53] fix: report the invalid coordinates of an ASCII STL

---
 importer/stl/ascii.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index ed18825..6f77446 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -30,9 +30,11 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 		fields := strings.Fields(line)
 		if len(fields) == 4 && strings.EqualFold(fields[0], "vertex") {
 			var f [3]float64
-			f[0], _ = strconv.ParseFloat(fields[1], 32)
-			f[1], _ = strconv.ParseFloat(fields[2], 32)
-			f[2], _ = strconv.ParseFloat(fields[3], 32)
+			for i := range f {
+				if f[i], err = strconv.ParseFloat(fields[i+1], 32); err != nil {
+					return err
+				}
+			}
 			nodes[position] = mb.AddVertex(go3mf.Point3D{float32(f[0]), float32(f[1]), float32(f[2])})
 			position++
 
-- 
2.43.0


From 451022f8f22742546eb4394a8c8e629de5ae819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 40/53] fix: report an ASCII STL that ends inside of a facet

---
 importer/stl/ascii.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index 6f77446..1807686 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -56,5 +56,8 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 			return err
 		}
 	}
-	return scanner.Err()
+	if err = scanner.Err(); err == nil && position != 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
 }
-- 
2.43.0


From 92f4aab52112629c05c4492008db0bfb4cbe8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 41/53] fix: check the context while reading any STL

---
 importer/stl/ascii.go  | 22 ++++++++--------------
 importer/stl/binary.go | 14 ++++++--------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/importer/stl/ascii.go b/importer/stl/ascii.go
index 1807686..3e9cb97 100644
--- a/importer/stl/ascii.go
+++ b/importer/stl/ascii.go
@@ -22,10 +22,16 @@ type asciiDecoder struct {
 func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 	mb := go3mf.NewMeshBuilder(m)
 	position := 0
-	nextFaceCheck := checkEveryFaces
 	var nodes [3]uint32
 	scanner := bufio.NewScanner(d.r)
-	for scanner.Scan() {
+	for lines := 0; scanner.Scan(); lines++ {
+		if lines%checkEveryFaces == 0 {
+			select {
+			case <-ctx.Done():
+				return ctx.Err()
+			default: // Default is must to avoid blocking
+			}
+		}
 		line := scanner.Text()
 		fields := strings.Fields(line)
 		if len(fields) == 4 && strings.EqualFold(fields[0], "vertex") {
@@ -41,20 +47,8 @@ func (d *asciiDecoder) decode(ctx context.Context, m *go3mf.Mesh) (err error) {
 			if position == 3 {
 				position = 0
 				m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: nodes[0], V2: nodes[1], V3: nodes[2]})
-				if len(m.Triangles.Triangle) > nextFaceCheck {
-					select {
-					case <-ctx.Done():
-						err = ctx.Err()
-						break
-					default: // Default is must to avoid blocking
-					}
-					nextFaceCheck += checkEveryFaces
-				}
 			}
 		}
-		if err != nil {
-			return err
-		}
 	}
 	if err = scanner.Err(); err == nil && position != 0 {
 		err = io.ErrUnexpectedEOF
diff --git a/importer/stl/binary.go b/importer/stl/binary.go
index d222754..6932dad 100644
--- a/importer/stl/binary.go
+++ b/importer/stl/binary.go
@@ -43,22 +43,20 @@ func (d *binaryDecoder) decode(ctx context.Context, m *go3mf.Mesh) error {
 		initialFaces = maxInitialFaces
 	}
 	mb.Mesh.Triangles.Triangle = make([]go3mf.Triangle, 0, initialFaces)
-	nextFaceCheck := checkEveryFaces
 	var facet binaryFace
 	for nFace := 0; nFace < int(header.FaceCount); nFace++ {
-		err = binary.Read(d.r, binary.LittleEndian, &facet)
-		if err != nil {
-			break
-		}
-		d.decodeFace(&facet, mb)
-		if len(m.Triangles.Triangle) > nextFaceCheck {
+		if nFace%checkEveryFaces == 0 {
 			select {
 			case <-ctx.Done():
 				return ctx.Err()
 			default: // Default is must to avoid blocking
 			}
-			nextFaceCheck += checkEveryFaces
 		}
+		err = binary.Read(d.r, binary.LittleEndian, &facet)
+		if err != nil {
+			break
+		}
+		d.decodeFace(&facet, mb)
 	}
 
 	return err
-- 
2.43.0


From db1558d57e4572301e21cde63b01505484fee1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 42/53] fix: do not take a binary STL with a solid header for
 an ASCII one

---
 importer/stl/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index f26f759..bc8fb32 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -75,7 +75,7 @@ func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
 
 func isASCII(s string) bool {
 	for i := 0; i < len(s); i++ {
-		if s[i] >= utf8.RuneSelf {
+		if s[i] == 0 || s[i] >= utf8.RuneSelf {
 			return false
 		}
 	}
-- 
2.43.0


From 4d6677b78e5162e7be33c9b2b653514c4abdb882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 43/53] fix: read the STL files smaller than 300 bytes

---
 importer/stl/decoder.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/importer/stl/decoder.go b/importer/stl/decoder.go
index bc8fb32..38f67b5 100644
--- a/importer/stl/decoder.go
+++ b/importer/stl/decoder.go
@@ -15,7 +15,7 @@ import (
 
 var checkEveryFaces = 1000
 
-const sizeOfHeader = 300 // minimum size of a closed mesh in binary is 384 bytes, corresponding to a triangle.
+const sizeOfHeader = 300 // bytes inspected to detect the encoding, the file can be smaller.
 
 // Decoder can decode a stl.
 // It supports automatic detection of binary or ascii stl encoding.
@@ -59,17 +59,11 @@ func (d *Decoder) DecodeContext(ctx context.Context, m *go3mf.Model) error {
 }
 
 func (d *Decoder) isASCII(r *bufio.Reader) (bool, error) {
-	var header string
-	for {
-		buff, err := r.Peek(sizeOfHeader)
-		if err != nil {
-			return false, err
-		}
-		if len(buff) >= sizeOfHeader {
-			header = strings.ToLower(string(buff))
-			break
-		}
+	buff, err := r.Peek(sizeOfHeader)
+	if err != nil && (err != io.EOF || len(buff) == 0) {
+		return false, err
 	}
+	header := strings.ToLower(string(buff))
 	return strings.HasPrefix(header, "solid") && isASCII(header), nil
 }
 
-- 
2.43.0


From 09db2323f823f8025a9bb1a8eee30c123ac3b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 44/53] fix: do not merge distinct vertices with big
 coordinates

---
 math.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/math.go b/math.go
index a7b5bb8..3b50382 100644
--- a/math.go
+++ b/math.go
@@ -48,13 +48,21 @@ const micronsAccuracy = 1e-6
 
 func newvec3IFromVec3(vec Point3D) vec3I {
 	a := vec3I{
-		X: math.Floor(float64(vec.X() / micronsAccuracy)),
-		Y: math.Floor(float64(vec.Y() / micronsAccuracy)),
-		Z: math.Floor(float64(vec.Z() / micronsAccuracy)),
+		X: toMicrons(vec.X()),
+		Y: toMicrons(vec.Y()),
+		Z: toMicrons(vec.Z()),
 	}
 	return a
 }
 
+func toMicrons(v float32) float64 {
+	if v > -16 && v < 16 {
+		return math.Floor(float64(v / micronsAccuracy))
+	}
+	// Here different values are farther from each other than the accuracy.
+	return float64(v) / micronsAccuracy
+}
+
 // vectorTree implements a n*log(n) lookup tree class to identify vectors by their position
 type vectorTree map[vec3I]uint32
 
-- 
2.43.0


From fddc4c41e8786714d9a8d1836d473ba2b76099e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 45/53] fix: validate the metadata of the objects

---
 validate.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/validate.go b/validate.go
index 1f7f111..555e18f 100644
--- a/validate.go
+++ b/validate.go
@@ -237,6 +237,7 @@ func (r *Object) Validate(m *Model, path string) error {
 		}
 		errs = errors.Append(errs, r.validateComponents(m, path))
 	}
+	errs = errors.Append(errs, checkMetadadata(m, r.Metadata.Metadata))
 
 	for _, ext := range m.Extensions {
 		if ext, ok := spec.LoadValidator(ext.Namespace); ok {
-- 
2.43.0


From 1d46ee04f66b6eb25793fcdf8fc8dd0a30005654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 46/53] fix: check that the polygons reference vertices of
 their slice

---
 slices/validate.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/slices/validate.go b/slices/validate.go
index 90dee40..b7d20bd 100644
--- a/slices/validate.go
+++ b/slices/validate.go
@@ -109,6 +109,9 @@ func (r *SliceStack) validateSlices() error {
 			if len(p.Segments) < 1 {
 				perrs = errors.Append(perrs, errors.WrapIndex(ErrSliceInsufficientSegments, attrPolygon, k))
 			}
+			if !p.validIndices(len(slice.Vertices.Vertex)) {
+				perrs = errors.Append(perrs, errors.WrapIndex(errors.ErrIndexOutOfBounds, attrPolygon, k))
+			}
 		}
 		if perrs != nil {
 			errs = errors.Append(errs, errors.WrapIndex(perrs, attrSlice, j))
@@ -117,6 +120,19 @@ func (r *SliceStack) validateSlices() error {
 	return errs
 }
 
+// validIndices checks that the polygon only references the n vertices of its slice.
+func (p *Polygon) validIndices(n int) bool {
+	if int(p.StartV) >= n {
+		return false
+	}
+	for _, s := range p.Segments {
+		if int(s.V2) >= n {
+			return false
+		}
+	}
+	return true
+}
+
 func (r *SliceStack) validateRefs(m *go3mf.Model, path string) error {
 	var errs error
 	lastTopZ := float32(-math.MaxFloat32)
-- 
2.43.0


From 070f0264aa62b1768f5502a75d570895a8568b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 47/53] fix: find the parts of a package ignoring the case of
 their names

---
 opc.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opc.go b/opc.go
index c58e2b0..4dbc2cc 100644
--- a/opc.go
+++ b/opc.go
@@ -5,6 +5,7 @@ package go3mf
 
 import (
 	"io"
+	"strings"
 
 	"github.com/qmuntal/opc"
 )
@@ -123,10 +124,17 @@ func resolveRelationship(source, rel string) string {
 }
 
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
+	var found *opc.File
 	for _, f := range r.Files {
 		if f.Name == name {
 			return &opcFile{r, f}, true
 		}
+		if found == nil && strings.EqualFold(f.Name, name) {
+			found = f // part names are case insensitive
+		}
+	}
+	if found == nil {
+		return nil, false
 	}
-	return nil, false
+	return &opcFile{r, found}, true
 }
-- 
2.43.0


From edc356dc9fc04a821d16a51d3ad74962570539ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 48/53] fix: keep the elements of an extension that have no
 name space out of the core one

---
 internal/xml/printer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index 37dc73d..e2234c5 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -17,6 +17,7 @@ type Printer struct {
 	attrPrefix     map[string]string // map name space -> prefix, of the name spaces in scope
 	defaultSpace   string            // default name space in scope
 	depth          int               // number of open elements
+	foreign        int               // depth of the outermost open element with an explicit name space
 	undo           []binding         // bindings to restore when their element is closed
 }
 
@@ -95,6 +96,9 @@ func (p *Printer) closeScope() {
 			p.attrPrefix[b.space] = b.prefix
 		}
 	}
+	if p.depth == p.foreign {
+		p.foreign = 0
+	}
 	p.depth--
 }
 
@@ -130,6 +134,15 @@ func (p *Printer) WriteStart(start *xml.StartElement) {
 	}
 	if start.Name.Space != p.defaultSpace {
 		p.declareMissing(start, start.Name.Space)
+		if start.Name.Space == "" && p.foreign > 0 {
+			// Only the elements of the core can omit their name space.
+			attr := xml.Attr{Name: xml.Name{Local: "xmlns"}}
+			start.Attr = append(start.Attr[:len(start.Attr):len(start.Attr)], attr)
+			p.declare(&attr)
+		}
+	}
+	if start.Name.Space != "" && p.foreign == 0 {
+		p.foreign = p.depth
 	}
 	for _, attr := range start.Attr {
 		p.declareMissing(start, attr.Name.Space)
-- 
2.43.0


From b84519617c477fe931a240c8c45c0f7224c67a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 49/53] fix: keep the core elements and the ones without name
 space apart when encoding

---
 encoder.go              | 14 ++++++++++++++
 internal/xml/printer.go | 29 +++++++++++++++++++++++------
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/encoder.go b/encoder.go
index d07d1ad..976f13b 100644
--- a/encoder.go
+++ b/encoder.go
@@ -283,7 +283,18 @@ func (e *Encoder) writeModel(x spec.Encoder, m *Model) error {
 // writeAny encodes all the elements of an extension point.
 func (e *Encoder) writeAny(x spec.Encoder, elements spec.Any, start *xml.StartElement) {
 	for _, ext := range elements {
+		_, unknown := ext.(*spec.UnknownTokens)
+		setForeign(x, unknown)
 		ext.Marshal3MF(x, start)
+		setForeign(x, false)
+	}
+}
+
+// setForeign tells the encoder whether the elements
+// without name space are not core ones.
+func setForeign(x spec.Encoder, foreign bool) {
+	if enc, ok := x.(*xmlEncoder); ok {
+		enc.p.Foreign = foreign
 	}
 }
 
@@ -335,9 +346,12 @@ func (e *Encoder) writeResources(x spec.Encoder, rs *Resources) error {
 	x.EncodeToken(xt)
 	for _, r := range rs.Assets {
 		if r, ok := r.(spec.Marshaler); ok {
+			_, unknown := r.(*UnknownAsset)
+			setForeign(x, unknown)
 			if err := r.Marshal3MF(x, &xt); err != nil {
 				return err
 			}
+			setForeign(x, false)
 		}
 		if err := x.Flush(); err != nil {
 			return err
diff --git a/internal/xml/printer.go b/internal/xml/printer.go
index e2234c5..582e00d 100644
--- a/internal/xml/printer.go
+++ b/internal/xml/printer.go
@@ -14,10 +14,11 @@ type Printer struct {
 	*bufio.Writer
 	AutoClose      bool
 	SkipAttrEscape bool
+	Foreign        bool              // the elements without name space are not core ones
 	attrPrefix     map[string]string // map name space -> prefix, of the name spaces in scope
 	defaultSpace   string            // default name space in scope
 	depth          int               // number of open elements
-	foreign        int               // depth of the outermost open element with an explicit name space
+	foreignDepth   int               // depth of the outermost open element with an explicit name space
 	undo           []binding         // bindings to restore when their element is closed
 }
 
@@ -82,6 +83,18 @@ func (p *Printer) declareMissing(start *xml.StartElement, space string) {
 	p.declare(&attr)
 }
 
+// dropDefault removes from a core element the declarations of
+// other default name spaces, as the element would no longer be a core one.
+func (p *Printer) dropDefault(start *xml.StartElement) {
+	for i, attr := range start.Attr {
+		if attr.Name.Space == "" && attr.Name.Local == "xmlns" && attr.Value != p.defaultSpace {
+			attrs := append([]xml.Attr(nil), start.Attr[:i]...)
+			start.Attr = append(attrs, start.Attr[i+1:]...)
+			return
+		}
+	}
+}
+
 // closeScope restores the name spaces that were in scope
 // before the current element.
 func (p *Printer) closeScope() {
@@ -96,8 +109,8 @@ func (p *Printer) closeScope() {
 			p.attrPrefix[b.space] = b.prefix
 		}
 	}
-	if p.depth == p.foreign {
-		p.foreign = 0
+	if p.depth == p.foreignDepth {
+		p.foreignDepth = 0
 	}
 	p.depth--
 }
@@ -129,20 +142,24 @@ func (p *Printer) EscapeString(s string) {
 // Those which are used but not declared are declared on the fly.
 func (p *Printer) WriteStart(start *xml.StartElement) {
 	p.depth++
+	foreign := p.Foreign || p.foreignDepth > 0
+	if start.Name.Space == "" && !foreign && p.depth > 1 {
+		p.dropDefault(start)
+	}
 	for i := range start.Attr {
 		p.declare(&start.Attr[i])
 	}
 	if start.Name.Space != p.defaultSpace {
 		p.declareMissing(start, start.Name.Space)
-		if start.Name.Space == "" && p.foreign > 0 {
+		if start.Name.Space == "" && foreign {
 			// Only the elements of the core can omit their name space.
 			attr := xml.Attr{Name: xml.Name{Local: "xmlns"}}
 			start.Attr = append(start.Attr[:len(start.Attr):len(start.Attr)], attr)
 			p.declare(&attr)
 		}
 	}
-	if start.Name.Space != "" && p.foreign == 0 {
-		p.foreign = p.depth
+	if start.Name.Space != "" && p.foreignDepth == 0 {
+		p.foreignDepth = p.depth
 	}
 	for _, attr := range start.Attr {
 		p.declareMissing(start, attr.Name.Space)
-- 
2.43.0


From 3d5d6ea28686afd1f9151cc04c8340c03c13676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 50/53] fix: resolve the dot segments of relationship targets

Targets like ../Textures/a.png or ./3D/m.model are valid relative
references, but the parts they point to were not found.
---
 opc.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opc.go b/opc.go
index 4dbc2cc..e941c70 100644
--- a/opc.go
+++ b/opc.go
@@ -5,6 +5,7 @@ package go3mf
 
 import (
 	"io"
+	"path"
 	"strings"
 
 	"github.com/qmuntal/opc"
@@ -88,8 +89,7 @@ func (o *opcFile) ContentType() string {
 }
 
 func (o *opcFile) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship(o.f.Name, name)
-	return findOPCFileFromName(name, o.r)
+	return findOPCFileFromName(resolveTarget(o.f.Name, name), o.r)
 }
 
 func (o *opcFile) Relationships() []Relationship {
@@ -115,14 +115,19 @@ func (o *opcReader) Relationships() []Relationship {
 }
 
 func (o *opcReader) FindFileFromName(name string) (packageFile, bool) {
-	name = opc.ResolveRelationship("/", name)
-	return findOPCFileFromName(name, o.r)
+	return findOPCFileFromName(resolveTarget("/", name), o.r)
 }
 
 func resolveRelationship(source, rel string) string {
 	return opc.ResolveRelationship(source, rel)
 }
 
+// resolveTarget returns the name of the part that is the target of a relationship of source.
+// The target is a relative reference, which can have dot segments.
+func resolveTarget(source, target string) string {
+	return path.Clean(opc.ResolveRelationship(source, target))
+}
+
 func findOPCFileFromName(name string, r *opc.Reader) (packageFile, bool) {
 	var found *opc.File
 	for _, f := range r.Files {
-- 
2.43.0


From 5418feaa4f222c2164bd41144c33c3a915adbfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:04 +0000
Subject: [PATCH 51/53] fix: write the relationship of a child model when
 another one has the same target

---
 encoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encoder.go b/encoder.go
index 976f13b..e2f80a9 100644
--- a/encoder.go
+++ b/encoder.go
@@ -38,7 +38,8 @@ func newXMLEncoder(w io.Writer, floatPresicion int) *xmlEncoder {
 func (enc *xmlEncoder) AddRelationship(r spec.Relationship) {
 	hasRelationship := false
 	for _, relationship := range enc.relationships {
-		if relationship.Path == r.Path {
+		// A child model is only found by a relationship of its type.
+		if relationship.Path == r.Path && (relationship.Type == r.Type || r.Type != RelType3DModel) {
 			hasRelationship = true
 			break
 		}
-- 
2.43.0


From 46765213c11487ef31d255d8663941907f5e1b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:04 +0000
Subject: [PATCH 52/53] fix: do not decode model parts as attachments

---
 read.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/read.go b/read.go
index 7a6d3da..bbc57b0 100644
--- a/read.go
+++ b/read.go
@@ -294,9 +294,22 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	if rootFile == nil {
 		return nil, errors.New("package does not have root model")
 	}
+	model.Attachments = d.removeModels(model.Attachments, rootFile)
 	return rootFile, nil
 }
 
+// removeModels removes the attachments that are model parts,
+// which can also be the target of other relationships.
+func (d *Decoder) removeModels(attachments []Attachment, rootFile packageFile) []Attachment {
+	var others []Attachment
+	for _, att := range attachments {
+		if att.Path != rootFile.Name() && !d.hasNonRootModel(att.Path) {
+			others = append(others, att)
+		}
+	}
+	return others
+}
+
 func (d *Decoder) extractCoreAttachments(modelFile packageFile, model *Model, isRoot bool) (err error) {
 	for _, rel := range modelFile.Relationships() {
 		if file, ok := modelFile.FindFileFromName(rel.Path); ok {
-- 
2.43.0


From 7b17580b5a184c5dabddc1875baa25b4b13057a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:04 +0000
Subject: [PATCH 53/53] fix: decode a single root model

---
 read.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/read.go b/read.go
index bbc57b0..a27f908 100644
--- a/read.go
+++ b/read.go
@@ -269,6 +269,9 @@ func (d *Decoder) processOPC(model *Model) (packageFile, error) {
 	var rootFile packageFile
 	for _, r := range d.p.Relationships() {
 		if r.Type == RelType3DModel {
+			if rootFile != nil {
+				continue // a package has a single root model
+			}
 			var ok bool
 			rootFile, ok = d.p.FindFileFromName(r.Path)
 			if !ok {
-- 
2.43.0

