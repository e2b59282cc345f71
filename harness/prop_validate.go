package main

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"image/color"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	specerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

var validateAssumptions = []string{
	"the rules judged are the ones listed in DESIGN.md: those the library has an error for; a rule of the 3MF specifications without an error in the library is not judged",
	"models hold no nil items, objects, components or assets, and no child model has an empty path",
	"the order of the errors of one list is not judged here",
}

func init() {
	register(&Prop{ID: "C17", Level: "exploration", Rule: "one evaluation is one model validated and its errors compared, as a multiset of (part, element path, error), with an independent validator; distinct_nontrivial counts distinct non-empty error lists seen",
		Assumptions: validateAssumptions,
		Run: func(c *Ctx) {
			c.Case("indirect-recursion", indirectRecursion)
			c.Case("vendor-metadata", vendorMetadata)
			for i := 0; i < c.N(9000, 240000); i++ {
				c.Case("core", func(t *T) { validateCase(t, validOpt{}) })
			}
			for i := 0; i < c.N(1500, 40000); i++ {
				c.Case("random", func(t *T) { validateRandom(t, false) })
			}
			for i := 0; i < c.N(20000, 600000); i++ {
				c.Case("dense", func(t *T) { validateDense(t, false) })
			}
			for k := 0; k < c.N(1, 20); k++ {
				for _, dim := range vastDims["C01"] {
					dim := dim
					c.Case("vast", func(t *T) { vastValidate(t, dim) })
				}
			}
			for i := 0; i < c.N(5000, 100000); i++ {
				c.Case("metadata", validateMetadata)
			}
			for i := 0; i < c.N(5000, 100000); i++ {
				c.Case("relationships", validateRels)
			}
			for i := 0; i < c.N(5000, 100000); i++ {
				c.Case("assets", validateDirect)
			}
		}})
	register(&Prop{ID: "C18", Level: "exploration", Rule: "one evaluation is one model with extension content validated and its errors compared, as a multiset of (part, element path, error), with an independent validator; distinct_nontrivial counts distinct non-empty error lists seen",
		Assumptions: validateAssumptions,
		Run: func(c *Ctx) {
			for i := 0; i < c.N(4500, 120000); i++ {
				c.Case("all", func(t *T) { validateCase(t, validOpt{mat: true, sli: true, beam: true, prod: true}) })
			}
			for i := 0; i < c.N(2700, 90000); i++ {
				c.Case("materials", func(t *T) { validateCase(t, validOpt{mat: true}) })
				c.Case("slices", func(t *T) { validateCase(t, validOpt{sli: true}) })
				c.Case("beams", func(t *T) { validateCase(t, validOpt{beam: true}) })
				c.Case("production", func(t *T) { validateCase(t, validOpt{prod: true}) })
			}
			for i := 0; i < c.N(1500, 40000); i++ {
				c.Case("random", func(t *T) { validateRandom(t, true) })
			}
			for i := 0; i < c.N(40000, 1000000); i++ {
				c.Case("dense", func(t *T) { validateDense(t, true) })
			}
			for k := 0; k < c.N(1, 20); k++ {
				for _, id := range []string{"C03", "C04", "C05", "C06"} {
					for _, dim := range vastDims[id] {
						dim := dim
						c.Case("vast", func(t *T) { vastValidate(t, dim) })
					}
				}
			}
			for i := 0; i < c.N(10000, 200000); i++ {
				c.Case("ladders", validateLadders)
			}
			for i := 0; i < c.N(900, 20000); i++ {
				c.Case("decoded", validateDecoded)
			}
		}})
}

// vErr is one error the validation has to report.
type vErr struct {
	part, xpath string
	err         error
}

func (e vErr) key() string {
	if e.part == "" {
		return "- " + e.xpath + ": " + e.err.Error()
	}
	return e.part + " " + e.xpath + ": " + e.err.Error()
}

// refVal is the reference validator: it walks the model with absolute element
// paths and writes down every fault in a flat list.
type refVal struct {
	m    *go3mf.Model
	out  []vErr
	root string
}

func referenceValidate(m *go3mf.Model) []vErr {
	v := &refVal{m: m, root: m.Path}
	if v.root == "" {
		v.root = "/3D/3dmodel.model"
	}
	v.relationships("", m.RootRelationships)
	known := map[string]bool{nsMat: true, nsSli: true, nsBeam: true, nsProd: true}
	for _, e := range m.Extensions {
		if e.IsRequired && !known[e.Namespace] {
			v.add("", "/model", specerr.ErrRequiredExt)
			break
		}
	}
	for path, c := range m.Childs {
		if path == v.root {
			v.add("", "/model", specerr.ErrOPCDuplicatedModelName)
		} else {
			v.relationships(path, c.Relationships)
		}
		v.resources(path, path, &c.Resources)
	}
	v.relationships(v.root, m.Relationships)
	v.metadata("", "/model", m.Metadata)
	for _, e := range m.Extensions {
		if e.Namespace == nsProd {
			v.prodBuild()
		}
	}
	v.resources("", v.root, &m.Resources)
	for i, it := range m.Build.Items {
		xp := fmt.Sprintf("/model/build/item[%d]", i)
		if it.ObjectID == 0 {
			v.missing("", xp, "objectid")
		} else if o := v.object(itemPath(it), it.ObjectID); o == nil {
			v.add("", xp, specerr.ErrMissingResource)
		} else if o.Type == go3mf.ObjectTypeOther {
			v.add("", xp, specerr.ErrOtherItem)
		}
		v.metadata("", xp, it.Metadata.Metadata)
	}
	return v.out
}

func (v *refVal) add(part, xp string, err error) { v.out = append(v.out, vErr{part, xp, err}) }

func (v *refVal) missing(part, xp, field string) {
	v.add(part, xp, &specerr.MissingFieldError{Name: field})
}

func (v *refVal) asset(part string, id uint32) go3mf.Asset {
	rs := refResources(v.m, part)
	if rs == nil {
		return nil
	}
	for _, a := range rs.Assets {
		if a.Identify() == id {
			return a
		}
	}
	return nil
}

func (v *refVal) object(part string, id uint32) *go3mf.Object {
	rs := refResources(v.m, part)
	if rs == nil {
		return nil
	}
	for _, o := range rs.Objects {
		if o.ID == id {
			return o
		}
	}
	return nil
}

// attachment returns the content types of the first attachment with the path.
func (v *refVal) attachment(path string) (ct string, ok bool) {
	for _, a := range v.m.Attachments {
		if strings.EqualFold(a.Path, path) {
			return a.ContentType, true
		}
	}
	return "", false
}

// groupLen returns the number of properties of a group, or -1 for anything else.
func groupLen(a go3mf.Asset) int {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		return len(a.Materials)
	case *materials.ColorGroup:
		return len(a.Colors)
	case *materials.Texture2DGroup:
		return len(a.Coords)
	case *materials.CompositeMaterials:
		return len(a.Composites)
	case *materials.MultiProperties:
		return len(a.Multis)
	}
	return -1
}

func (v *refVal) relationships(part string, rels []go3mf.Relationship) {
	tickets := 0
	for i, rel := range rels {
		xp := fmt.Sprintf("/model/relationship[%d]", i)
		ct, attached := v.attachment(rel.Path)
		if !strings.HasPrefix(rel.Path, "/") || strings.Contains(rel.Path, "/.") {
			v.add(part, xp, specerr.ErrOPCPartName)
		} else {
			if !attached {
				v.add(part, xp, specerr.ErrOPCRelTarget)
			}
			for _, o := range rels[:i] {
				if o.Path == rel.Path && o.Type == rel.Type {
					v.add(part, xp, specerr.ErrOPCDuplicatedRel)
					break
				}
			}
		}
		if rel.Type == "http://schemas.microsoft.com/3dmanufacturing/2013/01/printticket" && attached {
			if ct != "application/vnd.ms-printing.printticket+xml" {
				v.add(part, xp, specerr.ErrOPCContentType)
			}
			if tickets++; tickets > 1 {
				v.add(part, xp, specerr.ErrOPCDuplicatedTicket)
			}
		}
	}
}

func (v *refVal) metadata(part, base string, md []go3mf.Metadata) {
	seen := map[xml.Name]bool{}
	for i, d := range md {
		xp := fmt.Sprintf("%s/metadata[%d]", base, i)
		switch {
		case d.Name.Local == "":
			v.missing(part, xp, "name")
		case d.Name.Space == "":
			switch strings.ToLower(d.Name.Local) {
			case "title", "designer", "description", "copyright", "licenseterms", "rating", "creationdate", "modificationdate", "application":
			default:
				v.add(part, xp, specerr.ErrMetadataName)
			}
		default:
			declared := false
			for _, e := range v.m.Extensions {
				declared = declared || e.Namespace == d.Name.Space
			}
			if !declared {
				v.add(part, xp, specerr.ErrMetadataNamespace)
			}
		}
		if seen[d.Name] {
			v.add(part, xp, specerr.ErrMetadataDuplicated)
		}
		seen[d.Name] = true
	}
}

// resources judges one part: reported is the part of the errors, own the path
// which the references of the part are relative to.
func (v *refVal) resources(reported, own string, rs *go3mf.Resources) {
	used := map[uint32]bool{}
	repeated := func(id uint32) bool {
		if id == 0 || !used[id] {
			used[id] = true
			return false
		}
		return true
	}
	for i, a := range rs.Assets {
		xp := fmt.Sprintf("/model/resources/%s[%d]", a.XMLName().Local, i)
		if repeated(a.Identify()) {
			v.add(reported, xp, specerr.ErrDuplicatedID)
		}
		if b, ok := a.(*go3mf.BaseMaterials); ok {
			v.baseMaterials(reported, xp, b)
		}
		for _, e := range v.m.Extensions {
			switch e.Namespace {
			case nsMat:
				v.material(reported, own, xp, a)
			case nsSli:
				if s, ok := a.(*slices.SliceStack); ok {
					v.sliceStack(reported, own, xp, s)
				}
			}
		}
	}
	for i, o := range rs.Objects {
		xp := fmt.Sprintf("/model/resources/object[%d]", i)
		if repeated(o.ID) {
			v.add(reported, xp, specerr.ErrDuplicatedID)
		}
		v.oneObject(reported, own, xp, o)
	}
}

func (v *refVal) baseMaterials(part, xp string, b *go3mf.BaseMaterials) {
	if b.ID == 0 {
		v.add(part, xp, specerr.ErrMissingID)
	}
	if len(b.Materials) == 0 {
		v.add(part, xp, specerr.ErrEmptyResourceProps)
	}
	for i, x := range b.Materials {
		if x.Name == "" {
			v.missing(part, fmt.Sprintf("%s/base[%d]", xp, i), "name")
		}
		if (x.Color == color.RGBA{}) {
			v.missing(part, fmt.Sprintf("%s/base[%d]", xp, i), "displaycolor")
		}
	}
}

func (v *refVal) oneObject(part, own, xp string, o *go3mf.Object) {
	if o.ID == 0 {
		v.add(part, xp, specerr.ErrMissingID)
	}
	if o.PID == 0 && o.PIndex > 0 {
		v.missing(part, xp, "pid")
	}
	if (o.Mesh == nil) == (o.Components == nil) {
		v.add(part, xp, specerr.ErrInvalidObject)
	}
	if o.Mesh != nil {
		if o.PID != 0 {
			a := v.asset(own, o.PID)
			if a == nil {
				v.add(part, xp, specerr.ErrMissingResource)
			} else if n := groupLen(a); n >= 0 && uint64(o.PIndex) >= uint64(n) {
				v.add(part, xp, specerr.ErrIndexOutOfBounds)
			}
		}
		v.mesh(part, own, xp+"/mesh", o)
	}
	if o.Components != nil {
		if o.PID != 0 && len(o.Components.Component) > 0 {
			v.add(part, xp, specerr.ErrComponentsPID)
		}
		for i, c := range o.Components.Component {
			cxp := fmt.Sprintf("%s/components/component[%d]", xp, i)
			target := compPath(c, own)
			switch {
			case c.ObjectID == 0:
				v.missing(part, cxp, "objectid")
			case v.object(target, c.ObjectID) == nil:
				v.add(part, cxp, specerr.ErrMissingResource)
			case c.ObjectID == o.ID && target == own:
				v.add(part, cxp, specerr.ErrRecursion)
			}
		}
	}
	v.metadata(part, xp, o.Metadata.Metadata)
	for _, e := range v.m.Extensions {
		switch e.Namespace {
		case nsSli:
			v.slicedObject(part, own, xp, o)
		case nsBeam:
			v.lattice(part, own, xp, o)
		case nsProd:
			v.prodObject(part, own, xp, o)
		}
	}
}

func (v *refVal) mesh(part, own, xp string, o *go3mf.Object) {
	nv, nt := len(o.Mesh.Vertices.Vertex), len(o.Mesh.Triangles.Triangle)
	if o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport {
		if nv < 3 {
			v.add(part, xp, specerr.ErrInsufficientVertices)
		}
		if nt < 4 && len(o.Mesh.Any) == 0 {
			v.add(part, xp, specerr.ErrInsufficientTriangles)
		}
	}
	for i, t := range o.Mesh.Triangles.Triangle {
		txp := fmt.Sprintf("%s/triangle[%d]", xp, i)
		distinct := map[uint32]bool{t.V1: true, t.V2: true, t.V3: true}
		if len(distinct) != 3 {
			v.add(part, txp, specerr.ErrDuplicatedIndices)
		}
		for id := range distinct {
			if uint64(id) >= uint64(nv) {
				v.add(part, txp, specerr.ErrIndexOutOfBounds)
				break
			}
		}
		inherited := t.PID == o.PID && t.P1 == o.PIndex && t.P2 == o.PIndex && t.P3 == o.PIndex
		if t.PID == 0 || inherited {
			continue
		}
		a := v.asset(own, t.PID)
		if a == nil {
			v.add(part, txp, specerr.ErrMissingResource)
			continue
		}
		n := groupLen(a)
		for _, p := range []uint32{t.P1, t.P2, t.P3} {
			if n >= 0 && uint64(p) >= uint64(n) {
				v.add(part, txp, specerr.ErrIndexOutOfBounds)
				break
			}
		}
	}
}

func (v *refVal) material(part, own, xp string, a go3mf.Asset) {
	id := func(id uint32) {
		if id == 0 {
			v.add(part, xp, specerr.ErrMissingID)
		}
	}
	empty := func(n int) {
		if n == 0 {
			v.add(part, xp, specerr.ErrEmptyResourceProps)
		}
	}
	switch a := a.(type) {
	case *materials.ColorGroup:
		id(a.ID)
		empty(len(a.Colors))
		for i, c := range a.Colors {
			if c.R == 0 && c.G == 0 && c.B == 0 && c.A == 0 {
				v.missing(part, fmt.Sprintf("%s/color[%d]", xp, i), "color")
			}
		}
	case *materials.Texture2D:
		id(a.ID)
		if a.ContentType == 0 {
			v.missing(part, xp, "contenttype")
		}
		if a.Path == "" {
			v.missing(part, xp, "path")
		} else if _, ok := v.attachment(a.Path); !ok {
			v.add(part, xp, materials.ErrMissingTexturePart)
		}
	case *materials.Texture2DGroup:
		id(a.ID)
		empty(len(a.Coords))
		if a.TextureID == 0 {
			v.missing(part, xp, "texid")
		} else if _, ok := v.asset(own, a.TextureID).(*materials.Texture2D); !ok {
			v.add(part, xp, materials.ErrTextureReference)
		}
	case *materials.CompositeMaterials:
		id(a.ID)
		empty(len(a.Composites))
		if len(a.Indices) == 0 {
			v.missing(part, xp, "matindices")
		}
		if a.MaterialID == 0 {
			v.missing(part, xp, "matid")
			break
		}
		ref := v.asset(own, a.MaterialID)
		if ref == nil {
			v.add(part, xp, specerr.ErrMissingResource)
			break
		}
		base, ok := ref.(*go3mf.BaseMaterials)
		if !ok {
			v.add(part, xp, materials.ErrCompositeBase)
			break
		}
		for _, i := range a.Indices {
			if uint64(i) >= uint64(len(base.Materials)) {
				v.add(part, xp, specerr.ErrIndexOutOfBounds)
				break
			}
		}
	case *materials.MultiProperties:
		id(a.ID)
		empty(len(a.Multis))
		if len(a.PIDs) == 0 {
			v.missing(part, xp, "pids")
		}
		if len(a.BlendMethods) >= len(a.PIDs) {
			v.add(part, xp, materials.ErrMultiBlend)
		}
		layers := make([]go3mf.Asset, len(a.PIDs))
		unknown, colors := 0, 0
		for i, pid := range a.PIDs {
			layers[i] = v.asset(own, pid)
			switch layers[i].(type) {
			case nil:
				unknown++
			case *go3mf.BaseMaterials, *materials.CompositeMaterials:
				if i > 0 {
					v.add(part, xp, materials.ErrMaterialMulti)
				}
			case *materials.MultiProperties:
				v.add(part, xp, materials.ErrMultiRefMulti)
			case *materials.ColorGroup:
				if colors++; colors == 2 { // reported once
					v.add(part, xp, materials.ErrMultiColors)
				}
			}
		}
		if unknown > 0 {
			v.add(part, xp, specerr.ErrMissingResource)
		}
		for j, mu := range a.Multis {
			for k, p := range mu.PIndices {
				if k >= len(layers) || layers[k] == nil {
					continue
				}
				if n := groupLen(layers[k]); n >= 0 && uint64(p) >= uint64(n) {
					v.add(part, fmt.Sprintf("%s/multi[%d]", xp, j), specerr.ErrIndexOutOfBounds)
					break
				}
			}
		}
	}
}

func openPolygons(s *slices.SliceStack) bool {
	for _, sl := range s.Slices {
		for _, p := range sl.Polygons {
			if n := len(p.Segments); n > 0 && p.Segments[n-1].V2 != p.StartV {
				return true
			}
		}
	}
	return false
}

func (v *refVal) sliceStack(part, own, xp string, s *slices.SliceStack) {
	if (len(s.Slices) > 0) == (len(s.Refs) > 0) {
		v.add(part, xp, slices.ErrSlicesAndRefs)
	}
	for i, sl := range s.Slices {
		sxp := fmt.Sprintf("%s/slice[%d]", xp, i)
		if sl.TopZ == 0 {
			v.missing(part, sxp, "ztop")
		} else if sl.TopZ < s.BottomZ {
			v.add(part, sxp, slices.ErrSliceSmallTopZ)
		}
		if i > 0 && sl.TopZ <= s.Slices[i-1].TopZ {
			v.add(part, sxp, slices.ErrSliceNoMonotonic)
		}
		nv := len(sl.Vertices.Vertex)
		if nv == 0 && len(sl.Polygons) == 0 {
			continue
		}
		if nv < 2 {
			v.add(part, sxp, slices.ErrSliceInsufficientVertices)
		}
		if len(sl.Polygons) == 0 {
			v.add(part, sxp, slices.ErrSliceInsufficientPolygons)
		}
		for k, p := range sl.Polygons {
			pxp := fmt.Sprintf("%s/polygon[%d]", sxp, k)
			out := uint64(p.StartV) >= uint64(nv)
			for _, g := range p.Segments {
				out = out || uint64(g.V2) >= uint64(nv)
			}
			if len(p.Segments) == 0 {
				v.add(part, pxp, slices.ErrSliceInsufficientSegments)
			}
			if out {
				v.add(part, pxp, specerr.ErrIndexOutOfBounds)
			}
		}
	}
	var last *float32 // top of the last stack referenced
	for i, ref := range s.Refs {
		rxp := fmt.Sprintf("%s/sliceref[%d]", xp, i)
		if ref.Path == "" {
			v.missing(part, rxp, "slicepath")
		} else if ref.Path == own {
			v.add(part, rxp, slices.ErrSliceRefSamePart)
		}
		if ref.SliceStackID == 0 {
			v.missing(part, rxp, "slicestackid")
		}
		if ref.Path == "" || ref.Path == own || ref.SliceStackID == 0 {
			continue
		}
		a := v.asset(ref.Path, ref.SliceStackID)
		if a == nil {
			v.add(part, rxp, specerr.ErrMissingResource)
			continue
		}
		st, ok := a.(*slices.SliceStack)
		if !ok {
			v.add(part, rxp, slices.ErrNonSliceStack)
			continue
		}
		if len(st.Refs) > 0 {
			v.add(part, rxp, slices.ErrSliceRefRef)
		}
		if n := len(st.Slices); n > 0 {
			if last != nil && st.Slices[0].TopZ <= *last {
				v.add(part, rxp, slices.ErrSliceNoMonotonic)
			}
			last = &st.Slices[n-1].TopZ
		}
	}
}

func planar(t go3mf.Matrix) bool {
	if t == (go3mf.Matrix{}) || t == go3mf.Identity() {
		return true
	}
	return t[2] == 0 && t[6] == 0 && t[8] == 0 && t[9] == 0 && t[10] == 1
}

func (v *refVal) slicedObject(part, own, xp string, o *go3mf.Object) {
	var at *slices.ObjectAttr
	for _, a := range o.AnyAttr {
		if a, ok := a.(*slices.ObjectAttr); ok {
			at = a
			break
		}
	}
	if at == nil {
		return
	}
	if at.MeshResolution == slices.ResolutionLow {
		// the first declaration of the extension counts
		required := false
		for _, e := range v.m.Extensions {
			if e.Namespace == nsSli {
				required = e.IsRequired
				break
			}
		}
		if !required {
			v.add(part, xp, slices.ErrSliceExtRequired)
		}
	}
	if at.SliceStackID == 0 {
		v.missing(part, xp, "slicestackid")
		return
	}
	a := v.asset(own, at.SliceStackID)
	if a == nil {
		v.add(part, xp, specerr.ErrMissingResource)
		return
	}
	st, ok := a.(*slices.SliceStack)
	if !ok {
		v.add(part, xp, slices.ErrNonSliceStack)
		return
	}
	if !v.planarUses(own, o.ID) {
		v.add(part, xp, slices.ErrSliceInvalidTranform)
	}
	if o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport {
		open := openPolygons(st)
		for _, ref := range st.Refs {
			if rs, ok := v.asset(ref.Path, ref.SliceStackID).(*slices.SliceStack); ok {
				open = open || openPolygons(rs)
			}
		}
		if open {
			v.add(part, xp, slices.ErrSlicePolygonNotClosed)
		}
	}
}

// planarUses looks for a non planar transform applied to an object by an item
// or by a component of an object of the build.
func (v *refVal) planarUses(own string, id uint32) bool {
	target := v.object(own, id)
	type node struct {
		part string
		o    *go3mf.Object
	}
	var todo []node
	for _, it := range v.m.Build.Items {
		o := v.object(itemPath(it), it.ObjectID)
		if o == nil {
			continue
		}
		if o == target && !planar(it.Transform) {
			return false
		}
		todo = append(todo, node{itemPath(it), o})
	}
	done := map[*go3mf.Object]bool{}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		if done[n.o] || n.o.Components == nil {
			continue
		}
		done[n.o] = true
		for _, c := range n.o.Components.Component {
			p := compPath(c, n.part)
			o := v.object(p, c.ObjectID)
			if o == nil {
				continue
			}
			if o == target && !planar(c.Transform) {
				return false
			}
			todo = append(todo, node{p, o})
		}
	}
	return true
}

func latticeOf(m *go3mf.Mesh) *beamlattice.BeamLattice {
	if m == nil {
		return nil
	}
	for _, a := range m.Any {
		if b, ok := a.(*beamlattice.BeamLattice); ok {
			return b
		}
	}
	return nil
}

func (v *refVal) lattice(part, own, oxp string, o *go3mf.Object) {
	b := latticeOf(o.Mesh)
	if b == nil {
		return
	}
	xp := oxp + "/mesh/beamlattice"
	if o.Type != go3mf.ObjectTypeModel && o.Type != go3mf.ObjectTypeSolidSupport {
		v.add(part, xp, beamlattice.ErrLatticeObjType)
	}
	if b.MinLength == 0 {
		v.missing(part, xp, "minlength")
	}
	if b.Radius == 0 {
		v.missing(part, xp, "radius")
	}
	if b.ClippingMeshID == 0 && b.ClipMode == beamlattice.ClipNone {
		v.add(part, xp, beamlattice.ErrLatticeClippedNoMesh) // fixed by the tests
	}
	for _, id := range []uint32{b.ClippingMeshID, b.RepresentationMeshID} {
		if id == 0 {
			continue
		}
		if id == o.ID {
			v.add(part, xp, specerr.ErrRecursion)
			continue
		}
		// the mesh has to be defined before the lattice
		for _, x := range refResources(v.m, own).Objects {
			if x.ID == o.ID {
				v.add(part, xp, specerr.ErrMissingResource)
				break
			}
			if x.ID == id {
				if x.Mesh == nil || x.Type != go3mf.ObjectTypeModel || latticeOf(x.Mesh) != nil {
					v.add(part, xp, beamlattice.ErrLatticeInvalidMesh)
				}
				break
			}
		}
	}
	nv := uint64(len(o.Mesh.Vertices.Vertex))
	for i, be := range b.Beams.Beam {
		bxp := fmt.Sprintf("%s/beam[%d]", xp, i)
		if be.Indices[0] == be.Indices[1] {
			v.add(part, bxp, beamlattice.ErrLatticeSameVertex)
		} else if uint64(be.Indices[0]) >= nv || uint64(be.Indices[1]) >= nv {
			v.add(part, bxp, specerr.ErrIndexOutOfBounds)
		}
		r1, r2 := be.Radius[0], be.Radius[1]
		if !(r1 == 0 || r1 == b.Radius || r1 == r2) { // fixed by the tests
			v.add(part, bxp, beamlattice.ErrLatticeBeamR2)
		}
	}
	for i, set := range b.BeamSets.BeamSet {
		for _, ref := range set.Refs {
			if uint64(ref) >= uint64(len(b.Beams.Beam)) {
				v.add(part, fmt.Sprintf("%s/beamset[%d]", xp, i), specerr.ErrIndexOutOfBounds)
				break
			}
		}
	}
}

func (v *refVal) prodBuild() {
	xp := "/model/build"
	var at *production.BuildAttr
	for _, a := range v.m.Build.AnyAttr {
		if a, ok := a.(*production.BuildAttr); ok {
			at = a
			break
		}
	}
	if at == nil {
		v.missing("", xp, "UUID")
	} else if !uuidForm.MatchString(at.UUID) {
		v.add("", xp, production.ErrUUID)
	}
	for i, it := range v.m.Build.Items {
		ixp := fmt.Sprintf("%s/item[%d]", xp, i)
		var at *production.ItemAttr
		for _, a := range it.AnyAttr {
			if a, ok := a.(*production.ItemAttr); ok {
				at = a
				break
			}
		}
		if at == nil || at.UUID == "" {
			v.missing("", ixp, "UUID")
		} else if !uuidForm.MatchString(at.UUID) {
			v.add("", ixp, production.ErrUUID)
		}
	}
}

func (v *refVal) prodObject(part, own, xp string, o *go3mf.Object) {
	var at *production.ObjectAttr
	for _, a := range o.AnyAttr {
		if a, ok := a.(*production.ObjectAttr); ok {
			at = a
			break
		}
	}
	if at == nil {
		v.missing(part, xp, "UUID")
	} else if !uuidForm.MatchString(at.UUID) {
		v.add(part, xp, production.ErrUUID)
	}
	if o.Components == nil {
		return
	}
	for i, c := range o.Components.Component {
		cxp := fmt.Sprintf("%s/components/component[%d]", xp, i)
		var at *production.ComponentAttr
		for _, a := range c.AnyAttr {
			if a, ok := a.(*production.ComponentAttr); ok {
				at = a
				break
			}
		}
		if at == nil || at.UUID == "" {
			v.missing(part, cxp, "UUID")
		} else if !uuidForm.MatchString(at.UUID) {
			v.add(part, cxp, production.ErrUUID)
		}
		if at != nil && at.Path != "" && own != v.root {
			v.add(part, cxp, production.ErrProdRefInNonRoot)
		}
	}
}

// checkValidate compares the errors of the library with the reference.
func checkValidate(t *T, m *go3mf.Model, what string, hist []string) []vErr {
	want := referenceValidate(m)
	compareErrors(t, what, m.Validate(), want, func() string {
		return strings.Join(hist, "\n") + "\n" + dumpText(m)
	})
	noteRules(t, want)
	return want
}

func noteRules(t *T, want []vErr) {
	t.Eval(1)
	t.Count("models", 1)
	t.Count("errors_expected", len(want))
	if len(want) == 0 {
		t.Count("models_without_faults", 1)
		return
	}
	t.Max("errors_in_a_model", len(want))
	var keys []string
	for _, w := range want {
		part := "root"
		if w.part != "" {
			part = "part"
		}
		t.Seen("rules_by_place", part, stripIdx(w.xpath), w.err.Error())
		t.Seen("rules", w.err.Error())
		t.Count("reported: "+w.err.Error(), 1)
		keys = append(keys, w.key())
	}
	sort.Strings(keys)
	t.Distinct(strings.Join(keys, "\n"))
	t.Sample("%s", strings.Join(keys, "; "))
}

func compareErrors(t *T, what string, err error, want []vErr, ctx func() string) {
	var wk []string
	byKey := map[string]error{}
	for _, w := range want {
		wk = append(wk, w.key())
		byKey[w.key()] = w.err
	}
	var gk []string
	for _, e := range flatten(err) {
		w, ok := e.(*specerr.Error)
		if !ok {
			t.Fatal(what+":unplaced", "an error of the validation has no place: %v (%T)\n%s", e, e, ctx())
		}
		k := vErr{w.Path, w.XPath(), w.Err}.key()
		gk = append(gk, k)
		if x, ok := byKey[k]; ok {
			var mf *specerr.MissingFieldError
			if _, isMissing := x.(*specerr.MissingFieldError); isMissing {
				if !errors.As(e, &mf) {
					t.Fatal(what+":cause", "the cause of %q is a %T", k, w.Err)
				}
			} else if !errors.Is(e, x) {
				t.Fatal(what+":cause", "the cause of %q is not the error of the rule", k)
			}
		}
	}
	sort.Strings(wk)
	sort.Strings(gk)
	if len(want) == 0 && err != nil {
		t.Fatal(what+":reported", "a model without faults is reported: %v\n%s", gk, ctx())
	}
	missing, extra := multisetDiff(wk, gk)
	if len(missing) > 0 {
		t.Fatal(what+":missing:"+ruleOf(missing[0]), "not reported:\n  %s\nnot expected:\n  %s\n%s", strings.Join(missing, "\n  "), strings.Join(extra, "\n  "), ctx())
	}
	if len(extra) > 0 {
		t.Fatal(what+":extra:"+ruleOf(extra[0]), "not expected:\n  %s\n%s", strings.Join(extra, "\n  "), ctx())
	}
}

func ruleOf(key string) string {
	f := strings.SplitN(key, " ", 2)
	return stripIdx(f[len(f)-1])
}

// multisetDiff compares two sorted lists.
func multisetDiff(want, got []string) (missing, extra []string) {
	i, j := 0, 0
	for i < len(want) || j < len(got) {
		switch {
		case j == len(got) || (i < len(want) && want[i] < got[j]):
			missing = append(missing, want[i])
			i++
		case i == len(want) || got[j] < want[i]:
			extra = append(extra, got[j])
			j++
		default:
			i++
			j++
		}
	}
	return
}

type validOpt struct{ mat, sli, beam, prod, noVendor bool }

// valGen builds models without faults.
type valGen struct {
	r    *Rand
	m    *go3mf.Model
	o    validOpt
	refs map[string][]uint32 // objects by part
	sl   map[string][]uint32 // sliced objects by part
	st   map[string][]uint32 // slice stacks by part
	n    int
}

func (g *valGen) uuid() string {
	h := "0123456789abcdef"
	b := make([]byte, 36)
	for i := range b {
		b[i] = h[g.r.Intn(16)]
	}
	b[8], b[13], b[18], b[23] = '-', '-', '-', '-'
	b[14], b[19] = '4', '8'
	return string(b)
}

func (g *valGen) attach(prefix, ct string) string {
	g.n++
	p := fmt.Sprintf("/3D/%s%d.bin", prefix, g.n)
	g.m.Attachments = append(g.m.Attachments, go3mf.Attachment{Path: p, ContentType: ct, Stream: bytes.NewReader([]byte{1, 2, 3})})
	if g.r.P(1, 4) {
		return strings.ToUpper(p)
	}
	return p
}

func (g *valGen) metadata(n int) (out []go3mf.Metadata) {
	names := []string{"Title", "Designer", "description", "COPYRIGHT", "LicenseTerms", "Rating", "CreationDate", "ModificationDate", "Application"}
	for _, i := range g.r.Perm(len(names))[:g.r.Intn(n+1)] {
		out = append(out, go3mf.Metadata{Name: xml.Name{Local: names[i]}, Value: "v"})
	}
	if len(g.m.Extensions) > 0 && !g.o.noVendor && g.r.P(1, 3) {
		out = append(out, go3mf.Metadata{Name: xml.Name{Space: g.m.Extensions[g.r.Intn(len(g.m.Extensions))].Namespace, Local: "own"}, Value: "v"})
	}
	return
}

func (g *valGen) rels(n int) (out []go3mf.Relationship) {
	ticket := false
	for i := g.r.Intn(n + 1); i > 0; i-- {
		if !ticket && g.r.P(1, 3) {
			ticket = true
			out = append(out, go3mf.Relationship{ID: fmt.Sprint("r", i), Type: go3mf.RelTypePrintTicket, Path: g.attach("ticket", go3mf.ContentTypePrintTicket)})
			continue
		}
		p := g.attach("other", "text/plain")
		out = append(out, go3mf.Relationship{ID: fmt.Sprint("r", i), Type: g.r.Pick(go3mf.RelTypeMustPreserve, go3mf.RelTypeMustPreserve, nearRel(g.r)), Path: p})
		if g.r.P(1, 4) {
			out = append(out, go3mf.Relationship{ID: fmt.Sprint("s", i), Type: "http://example.com/type", Path: p})
		}
	}
	return
}

func validModel(r *Rand, o validOpt) *go3mf.Model {
	m := &go3mf.Model{Units: go3mf.Units(r.Intn(6)), Language: "en-US"}
	g := &valGen{r: r, m: m, o: o, refs: map[string][]uint32{}, sl: map[string][]uint32{}, st: map[string][]uint32{}}
	for _, e := range []struct {
		on         bool
		ns, prefix string
	}{{o.mat, nsMat, "m"}, {o.sli, nsSli, "s"}, {o.beam, nsBeam, "b"}, {o.prod, nsProd, "p"}} {
		if e.on {
			m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: e.ns, LocalName: e.prefix, IsRequired: r.Bool() || e.ns == nsSli})
		}
	}
	if r.P(1, 3) {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: "http://example.com/vendor", LocalName: "v"})
	}
	if r.P(1, 2) {
		m.Path = r.Pick("/3D/root.model", "/3D/3dmodel.model", "/model.model")
	}
	root := m.Path
	if root == "" {
		root = "/3D/3dmodel.model"
	}
	var parts []string
	for i := r.Intn(4); i > 0; i-- {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		p := fmt.Sprintf("/3D/sub%d.model", i)
		m.Childs[p] = &go3mf.ChildModel{}
		parts = append(parts, p)
	}
	for i := len(parts) - 1; i >= 0; i-- {
		c := m.Childs[parts[i]]
		g.part(parts[i], &c.Resources, parts[i+1:])
		c.Relationships = g.rels(2)
	}
	g.part(root, &m.Resources, parts)
	m.Relationships = g.rels(3)
	m.RootRelationships = g.rels(2)
	m.Metadata = g.metadata(4)
	if o.prod {
		m.Build.AnyAttr = append(m.Build.AnyAttr, &production.BuildAttr{UUID: g.uuid()})
	}
	for i := r.Intn(5); i > 0; i-- {
		it := &go3mf.Item{Metadata: go3mf.MetadataGroup{Metadata: g.metadata(2)}}
		part := root
		if len(parts) > 0 && r.P(1, 2) {
			part = parts[r.Intn(len(parts))]
		}
		rs := refResources(m, part)
		var ids []uint32
		for _, ob := range rs.Objects {
			if ob.Type != go3mf.ObjectTypeOther {
				ids = append(ids, ob.ID)
			}
		}
		if len(ids) == 0 {
			continue
		}
		it.ObjectID = ids[r.Intn(len(ids))]
		it.Transform = g.transform()
		if part != root || o.prod || r.P(1, 5) {
			at := &production.ItemAttr{UUID: g.uuid()}
			if part != root || r.P(1, 5) {
				at.Path = part
			}
			it.AnyAttr = append(it.AnyAttr, at)
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	return m
}

// transform returns a planar one if there may be slices.
func (g *valGen) transform() go3mf.Matrix {
	f := func() float32 { return float32(g.r.Range(-4, 4)) }
	switch g.r.Intn(4) {
	case 0:
		return go3mf.Matrix{}
	case 1:
		return go3mf.Identity()
	}
	t := go3mf.Matrix{f(), f(), 0, 0, f(), f(), 0, 0, 0, 0, 1, 0, f(), f(), f(), 1}
	if !g.o.sli {
		t[2], t[6], t[8], t[9], t[10] = f(), f(), f(), f(), f()
	}
	return t
}

func (g *valGen) part(path string, rs *go3mf.Resources, others []string) {
	r := g.r
	id := uint32(r.Intn(3))
	next := func() uint32 { id += uint32(1 + r.Intn(2)); return id }
	col := func() color.RGBA { return color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), 1, 255} }
	type group struct {
		id uint32
		n  int
	}
	var groups []group // any property group
	var bases []*go3mf.BaseMaterials
	for i := r.Intn(3); i > 0; i-- {
		b := &go3mf.BaseMaterials{ID: next()}
		for j := r.Range(1, 4); j > 0; j-- {
			b.Materials = append(b.Materials, go3mf.Base{Name: r.Pick("a", "b"), Color: col()})
		}
		rs.Assets = append(rs.Assets, b)
		bases = append(bases, b)
		groups = append(groups, group{b.ID, len(b.Materials)})
	}
	if g.o.mat || r.P(1, 4) {
		var layers []group // first and only material, then others
		var colors []group
		for i := r.Intn(3); i > 0; i-- {
			c := &materials.ColorGroup{ID: next()}
			for j := r.Range(1, 5); j > 0; j-- {
				c.Colors = append(c.Colors, col())
			}
			rs.Assets = append(rs.Assets, c)
			colors = append(colors, group{c.ID, len(c.Colors)})
		}
		for i := r.Intn(3); i > 0; i-- {
			x := &materials.Texture2D{ID: next(), Path: g.attach("tex", "image/png"), ContentType: materials.Texture2DType(r.Range(1, 2))}
			c := &materials.Texture2DGroup{ID: next(), TextureID: x.ID}
			for j := r.Range(1, 5); j > 0; j-- {
				c.Coords = append(c.Coords, materials.TextureCoord{float32(r.F64()), 0.5})
			}
			rs.Assets = append(rs.Assets, x, c)
			layers = append(layers, group{c.ID, len(c.Coords)})
		}
		firsts := append([]group(nil), groups...)
		for i := r.Intn(3); i > 0 && len(bases) > 0; i-- {
			b := bases[r.Intn(len(bases))]
			c := &materials.CompositeMaterials{ID: next(), MaterialID: b.ID}
			for j := r.Range(1, 3); j > 0; j-- {
				c.Indices = append(c.Indices, uint32(r.Intn(len(b.Materials))))
			}
			for j := r.Range(1, 4); j > 0; j-- {
				var v materials.Composite
				n := len(c.Indices)
				if r.P(1, 4) { // nothing is said about their number
					n = 1 + r.Intn(n+2)
				}
				for ; n > 0; n-- {
					v.Values = append(v.Values, float32(r.F64()))
				}
				c.Composites = append(c.Composites, v)
			}
			rs.Assets = append(rs.Assets, c)
			firsts = append(firsts, group{c.ID, len(c.Composites)})
		}
		groups = append(append(groups, colors...), layers...)
		groups = append(groups, firsts...)
		for i := r.Intn(3); i > 0; i-- {
			var ls []group
			if len(firsts) > 0 && r.Bool() {
				ls = append(ls, firsts[r.Intn(len(firsts))])
			}
			for j := r.Intn(3); j > 0 && len(layers) > 0; j-- {
				ls = append(ls, layers[r.Intn(len(layers))])
			}
			if len(colors) > 0 && r.Bool() {
				ls = append(ls, colors[r.Intn(len(colors))])
			}
			if len(ls) == 0 {
				continue
			}
			mp := &materials.MultiProperties{ID: next()}
			for _, l := range ls {
				mp.PIDs = append(mp.PIDs, l.id)
			}
			for j := r.Intn(len(ls)); j > 0; j-- {
				mp.BlendMethods = append(mp.BlendMethods, materials.BlendMethod(r.Intn(2)))
			}
			for j := r.Range(1, 4); j > 0; j-- {
				var mu materials.Multi
				for _, l := range ls[:r.Range(0, len(ls))] {
					mu.PIndices = append(mu.PIndices, uint32(r.Intn(l.n)))
				}
				if len(mu.PIndices) == len(ls) && r.P(1, 8) {
					mu.PIndices = append(mu.PIndices, g.r.U32()) // stands for nothing
				}
				mp.Multis = append(mp.Multis, mu)
			}
			rs.Assets = append(rs.Assets, mp)
			groups = append(groups, group{mp.ID, len(mp.Multis)})
		}
	}
	var stacks []uint32
	if g.o.sli || r.P(1, 6) {
		for i := r.Intn(4); i > 0; i-- {
			s := &slices.SliceStack{ID: next(), BottomZ: float32(r.Range(-5, 5))}
			z := s.BottomZ
			if z < 0 && r.Bool() {
				z = 0
			}
			for j := r.Range(1, 4); j > 0; j-- {
				if z += float32(r.Range(1, 4)) / 4; z == 0 {
					z = 0.25
				}
				sl := slices.Slice{TopZ: z}
				if r.P(3, 4) {
					n := r.Range(2, 5)
					for k := 0; k < n; k++ {
						sl.Vertices.Vertex = append(sl.Vertices.Vertex, go3mf.Point2D{float32(k), float32(k * k)})
					}
					for k := r.Range(1, 3); k > 0; k-- {
						p := slices.Polygon{StartV: uint32(r.Intn(n))}
						for x := r.Intn(4); x > 0; x-- {
							p.Segments = append(p.Segments, slices.Segment{V2: uint32(r.Intn(n))})
						}
						p.Segments = append(p.Segments, slices.Segment{V2: p.StartV})
						sl.Polygons = append(sl.Polygons, p)
					}
				}
				s.Slices = append(s.Slices, sl)
			}
			rs.Assets = append(rs.Assets, s)
			stacks = append(stacks, s.ID)
			g.st[path] = append(g.st[path], s.ID)
		}
		if len(others) > 0 && r.P(2, 3) {
			s := &slices.SliceStack{ID: next()}
			top := float32(-1e30)
			for i := r.Range(1, 4); i > 0; i-- {
				p := others[r.Intn(len(others))]
				for _, sid := range g.st[p] {
					for _, a := range refResources(g.m, p).Assets {
						if a, ok := a.(*slices.SliceStack); ok && a.ID == sid && len(a.Slices) > 0 && a.Slices[0].TopZ > top {
							top = a.Slices[len(a.Slices)-1].TopZ
							s.Refs = append(s.Refs, slices.SliceRef{Path: p, SliceStackID: sid})
						}
					}
				}
			}
			if len(s.Refs) > 0 {
				rs.Assets = append(rs.Assets, s)
				stacks = append(stacks, s.ID)
			}
		}
	}
	// The order of the assets is free.
	for i := range rs.Assets {
		j := r.Intn(len(rs.Assets))
		rs.Assets[i], rs.Assets[j] = rs.Assets[j], rs.Assets[i]
	}
	var plain []uint32 // meshes a lattice can reference
	for i := r.Intn(6); i > 0; i-- {
		o := &go3mf.Object{ID: next(), Type: go3mf.ObjectType(r.Intn(5)), Metadata: go3mf.MetadataGroup{Metadata: g.metadata(1)}}
		if r.Bool() {
			o.Type = go3mf.ObjectTypeModel
		}
		if g.o.prod || r.P(1, 10) {
			o.AnyAttr = append(o.AnyAttr, &production.ObjectAttr{UUID: g.uuid()})
		}
		if len(stacks) > 0 && r.Bool() {
			o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: stacks[r.Intn(len(stacks))], MeshResolution: slices.MeshResolution(r.Intn(2))})
		}
		if r.P(1, 3) {
			o.Components = &go3mf.Components{}
			for j := r.Intn(4); j > 0; j-- {
				part := path
				root := path == g.m.Path || (g.m.Path == "" && path == "/3D/3dmodel.model")
				if root && len(others) > 0 && r.Bool() {
					part = others[r.Intn(len(others))]
				}
				if len(g.refs[part]) == 0 {
					continue
				}
				c := &go3mf.Component{ObjectID: g.refs[part][r.Intn(len(g.refs[part]))], Transform: g.transform()}
				if part != path || g.o.prod {
					at := &production.ComponentAttr{UUID: g.uuid()}
					if part != path || (root && r.P(1, 4)) {
						at.Path = part
					}
					c.AnyAttr = append(c.AnyAttr, at)
				}
				o.Components.Component = append(o.Components.Component, c)
			}
		} else {
			var gr *group
			if len(groups) > 0 && r.Bool() {
				gr = &groups[r.Intn(len(groups))]
				o.PID, o.PIndex = gr.id, uint32(r.Intn(gr.n))
			}
			mesh := &go3mf.Mesh{}
			o.Mesh = mesh
			nv, nt := r.Range(3, 7), r.Range(4, 8)
			if o.Type != go3mf.ObjectTypeModel && o.Type != go3mf.ObjectTypeSolidSupport {
				nv, nt = r.Range(3, 6), r.Intn(5)
				if r.P(1, 4) {
					nv, nt = r.Intn(3), 0
				}
			}
			for j := 0; j < nv; j++ {
				mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, go3mf.Point3D{float32(j), float32(j * j), float32(r.Intn(9))})
			}
			lattice := g.o.beam && nv > 1 && (o.Type == go3mf.ObjectTypeModel || o.Type == go3mf.ObjectTypeSolidSupport) && r.Bool()
			if lattice {
				b := &beamlattice.BeamLattice{MinLength: 0.01, Radius: 1, ClipMode: beamlattice.ClipMode(r.Range(1, 2))}
				if len(plain) > 0 && r.P(2, 3) {
					b.ClippingMeshID = plain[r.Intn(len(plain))]
					b.ClipMode = beamlattice.ClipMode(r.Intn(3))
				}
				if len(plain) > 0 && r.P(1, 2) {
					b.RepresentationMeshID = plain[r.Intn(len(plain))]
				}
				for k := r.Intn(6); k > 0; k-- {
					p := r.Perm(nv)
					be := beamlattice.Beam{Indices: [2]uint32{uint32(p[0]), uint32(p[1])}, Radius: [2]float32{1, 1}}
					switch r.Intn(4) {
					case 0:
						be.Radius = [2]float32{2, 2}
					case 1:
						be.Radius = [2]float32{1, 3}
					case 2:
						be.Radius = [2]float32{0, 0.5}
					}
					b.Beams.Beam = append(b.Beams.Beam, be)
				}
				for k := r.Intn(3); k > 0; k-- {
					var set beamlattice.BeamSet
					for x := r.Intn(4); x > 0 && len(b.Beams.Beam) > 0; x-- {
						set.Refs = append(set.Refs, uint32(r.Intn(len(b.Beams.Beam))))
					}
					b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, set)
				}
				mesh.Any = append(mesh.Any, b)
				if r.P(1, 2) {
					nt = r.Intn(4) // a lattice is enough
				}
			} else if o.Type == go3mf.ObjectTypeModel {
				plain = append(plain, o.ID)
			}
			for j := 0; j < nt; j++ {
				p := r.Perm(nv)
				tr := go3mf.Triangle{V1: uint32(p[0]), V2: uint32(p[1]), V3: uint32(p[2])}
				if gr != nil {
					tr.PID, tr.P1, tr.P2, tr.P3 = o.PID, o.PIndex, o.PIndex, o.PIndex
				}
				if len(groups) > 0 && r.P(1, 2) {
					x := groups[r.Intn(len(groups))]
					tr.PID, tr.P1, tr.P2, tr.P3 = x.id, uint32(r.Intn(x.n)), uint32(r.Intn(x.n)), uint32(r.Intn(x.n))
				}
				mesh.Triangles.Triangle = append(mesh.Triangles.Triangle, tr)
			}
		}
		rs.Objects = append(rs.Objects, o)
		g.refs[path] = append(g.refs[path], o.ID)
	}
}

// restructure changes what corruptModel cannot: kinds, pointers and parts.
func restructure(r *Rand, m *go3mf.Model) string {
	rss := []*go3mf.Resources{&m.Resources}
	keys := sortedKeys(m.Childs)
	for _, p := range keys {
		rss = append(rss, &m.Childs[p].Resources)
	}
	rs := rss[r.Intn(len(rss))]
	var o *go3mf.Object
	if len(rs.Objects) > 0 {
		o = rs.Objects[r.Intn(len(rs.Objects))]
	}
	switch r.Intn(20) {
	case 0:
		if o != nil {
			o.Mesh = nil
			return "mesh removed"
		}
	case 1:
		if o != nil {
			o.Components = nil
			return "components removed"
		}
	case 2:
		if o != nil && o.Components == nil {
			o.Components = &go3mf.Components{}
			if r.Bool() {
				o.Components.Component = append(o.Components.Component, &go3mf.Component{ObjectID: rs.Objects[r.Intn(len(rs.Objects))].ID})
			}
			return "components added"
		}
	case 3:
		if o != nil && o.Mesh == nil {
			o.Mesh = &go3mf.Mesh{}
			return "mesh added"
		}
	case 4:
		if len(rs.Assets) > 0 {
			i := r.Intn(len(rs.Assets))
			id := rs.Assets[i].Identify()
			rs.Assets[i] = lookupAsset(r, id)
			return "asset replaced by an empty one"
		}
	case 5:
		if len(rs.Assets) > 1 {
			// exchange the identifiers of two assets: references find another kind
			a, b := rs.Assets[r.Intn(len(rs.Assets))], rs.Assets[r.Intn(len(rs.Assets))]
			x, y := a.Identify(), b.Identify()
			setAssetID(a, y)
			setAssetID(b, x)
			return "assets exchanged"
		}
	case 6:
		if len(keys) > 0 {
			p := keys[r.Intn(len(keys))]
			c := m.Childs[p]
			delete(m.Childs, p)
			if r.Bool() {
				root := m.Path
				if root == "" {
					root = "/3D/3dmodel.model"
				}
				m.Childs[root] = c
				return "part named like the root"
			}
			return "part removed"
		}
	case 7:
		if len(m.Extensions) > 0 {
			e := m.Extensions[r.Intn(len(m.Extensions))]
			if r.Bool() {
				e.IsRequired = !e.IsRequired
			}
			m.Extensions = append(m.Extensions, e)
			return "extension declared twice"
		}
	case 8:
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: r.Pick("http://example.com/required", nsCore, nsMat+"/"), LocalName: "req", IsRequired: r.P(2, 3)})
		return "extension added"
	case 9:
		if o != nil && o.Mesh != nil {
			b := &beamlattice.BeamLattice{}
			if r.Bool() {
				b.ClippingMeshID, b.RepresentationMeshID = rs.Objects[r.Intn(len(rs.Objects))].ID, rs.Objects[r.Intn(len(rs.Objects))].ID
			}
			o.Mesh.Any = append(o.Mesh.Any, b)
			return "lattice added"
		}
	case 10:
		if o != nil && o.Components != nil {
			c := &go3mf.Component{ObjectID: o.ID}
			if r.Bool() {
				at := &production.ComponentAttr{UUID: "x"}
				if len(keys) > 0 && r.Bool() {
					at.Path = keys[r.Intn(len(keys))]
				} else {
					at.Path = r.Pick("", m.Path, "/3D/3dmodel.model")
				}
				c.AnyAttr = append(c.AnyAttr, at)
			}
			o.Components.Component = append(o.Components.Component, c)
			return "component of itself added"
		}
	case 11:
		if o != nil {
			at := &slices.ObjectAttr{MeshResolution: slices.MeshResolution(r.Intn(2))}
			if len(rs.Assets) > 0 {
				at.SliceStackID = rs.Assets[r.Intn(len(rs.Assets))].Identify()
			}
			o.AnyAttr = append(spec.AnyAttr{at}, o.AnyAttr...)
			return "slice reference added"
		}
	case 12:
		m.Relationships = append(m.Relationships, go3mf.Relationship{Type: go3mf.RelTypePrintTicket, Path: "/3D/ticket.xml"})
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: "/3D/Ticket.xml", ContentType: r.Pick(go3mf.ContentTypePrintTicket, "text/xml"), Stream: bytes.NewReader(nil)})
		return "ticket added"
	case 13:
		if len(rss) > 1 {
			to := rss[r.Intn(len(rss))]
			*to, *rs = *rs, *to
			return "resources of two parts exchanged"
		}
	case 14:
		for _, i := range r.Perm(len(rs.Assets)) {
			switch a := rs.Assets[i].(type) {
			case *go3mf.BaseMaterials:
				if len(a.Materials) > 0 {
					a.Materials[r.Intn(len(a.Materials))].Color = color.RGBA{}
					return "colour cleared"
				}
			case *materials.ColorGroup:
				if len(a.Colors) > 0 {
					a.Colors[r.Intn(len(a.Colors))] = color.RGBA{}
					return "colour cleared"
				}
			}
		}
	case 15, 16:
		// a transform that is planar but for one element
		var all []*go3mf.Matrix
		for _, it := range m.Build.Items {
			all = append(all, &it.Transform)
		}
		for _, rs := range rss {
			for _, o := range rs.Objects {
				if o.Components != nil {
					for _, c := range o.Components.Component {
						all = append(all, &c.Transform)
					}
				}
			}
		}
		if len(all) > 0 {
			x := all[r.Intn(len(all))]
			*x = go3mf.Matrix{0, 2, 0, 0, -1, 0, 0, 0, 0, 0, 1, 0, 3, 4, 5, 1}
			if k := []int{2, 6, 8, 9, 10, 3, 14}[r.Intn(7)]; k > 0 {
				x[k] = []float32{-1, 0.001, 2}[r.Intn(3)]
			}
			return "transform changed"
		}
	case 17, 18:
		// references between stacks, also those of other parts
		var stacks []*slices.SliceStack
		var refs []slices.SliceRef
		paths := append([]string{m.Path}, keys...)
		if m.Path == "" {
			paths[0] = "/3D/3dmodel.model"
		}
		for i, rs := range rss {
			for _, a := range rs.Assets {
				if s, ok := a.(*slices.SliceStack); ok {
					stacks = append(stacks, s)
					refs = append(refs, slices.SliceRef{SliceStackID: s.ID, Path: paths[i]})
				}
			}
		}
		if len(stacks) > 0 {
			s := stacks[r.Intn(len(stacks))]
			if r.Bool() {
				s.Slices = nil
			}
			k := r.Range(1, 3)
			for i := 0; i < k; i++ {
				ref := refs[r.Intn(len(refs))]
				if r.P(1, 6) {
					ref.Path = ""
				}
				s.Refs = append(s.Refs, ref)
			}
			return "slice references added"
		}
	case 19:
		// one object used by others, deeply
		if len(rs.Objects) > 1 {
			for i := range rs.Objects {
				if i > 0 && r.P(2, 3) {
					o := rs.Objects[i]
					o.Mesh, o.PID, o.PIndex = nil, 0, 0
					o.Components = &go3mf.Components{Component: []*go3mf.Component{{ObjectID: rs.Objects[r.Intn(i)].ID}}}
				}
			}
			return "objects nested"
		}
	}
	return "nothing"
}

func setAssetID(a go3mf.Asset, id uint32) {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		a.ID = id
	case *materials.ColorGroup:
		a.ID = id
	case *materials.Texture2D:
		a.ID = id
	case *materials.Texture2DGroup:
		a.ID = id
	case *materials.CompositeMaterials:
		a.ID = id
	case *materials.MultiProperties:
		a.ID = id
	case *slices.SliceStack:
		a.ID = id
	}
}

func validateCase(t *T, o validOpt) {
	r := t.R
	m := validModel(r, o)
	if want := checkValidate(t, m, "valid", nil); len(want) > 0 {
		panic(fmt.Sprint("the generator made a model with faults: ", want[0].key(), "\n", dumpText(m)))
	}
	orig := cloneModel(m)
	for k := 0; k < 4; k++ {
		m := cloneModel(orig)
		var hist []string
		for n := []int{1, 1, 2, 3, 8}[r.Intn(5)]; n > 0; n-- {
			if r.P(1, 3) {
				hist = append(hist, restructure(r, m))
			} else {
				hist = append(hist, corruptModel(r, m, 1)...)
			}
			if r.P(1, 4) { // nothing may be remembered of this time
				checkValidate(t, m, "faulty", hist)
			}
		}
		checkValidate(t, m, "faulty", hist)
	}
}

// validateRandom validates models without any consistency.
func validateRandom(t *T, ext bool) {
	o := genOpt{Unknown: t.R.Bool(), Childs: t.R.Bool(), Package: t.R.Bool(), Size: 3}
	if ext {
		o.Materials, o.Slices, o.Beams, o.Production = t.R.P(2, 3), t.R.P(2, 3), t.R.P(2, 3), t.R.P(2, 3)
	}
	m := genModel(t.R, o)
	var hist []string
	if t.R.P(1, 2) {
		// small identifiers make references that hit
		hist = corruptModel(t.R, m, t.R.Range(1, 40))
	}
	checkValidate(t, m, "random", hist)
}

func validateMetadata(t *T) {
	r := t.R
	m := &go3mf.Model{}
	for i := r.Intn(3); i > 0; i-- {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: r.Pick("http://a", "http://b", "title", "x"), LocalName: "a"})
	}
	md := func() (out []go3mf.Metadata) {
		for i := r.Intn(5); i > 0; i-- {
			n := xml.Name{Local: r.Pick("Title", "title", "TITLE", "Designer", "description", "Copyright", "licenseterms", "Rating", "CreationDate", "ModificationDate", "Application",
				"applicatio", "applications", "a", "zzz", "titles", "titl", "", "rating ", "Tıtle", "own", "creation", "licenseTerms\n", "copyrighT")}
			if r.P(1, 3) {
				n.Space = r.Pick("http://a", "http://b", "HTTP://a", "title", "x", nsCore)
			}
			out = append(out, go3mf.Metadata{Name: n, Value: r.Pick("", "v"), Type: r.Pick("", "xs:string")})
		}
		return
	}
	m.Metadata = md()
	m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 1, Components: &go3mf.Components{}, Metadata: go3mf.MetadataGroup{Metadata: md()}})
	if r.Bool() {
		m.Childs = map[string]*go3mf.ChildModel{"/c.model": {Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: 1, Components: &go3mf.Components{}, Metadata: go3mf.MetadataGroup{Metadata: md()}}}}}}
	}
	for i := r.Intn(3); i > 0; i-- {
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1, Metadata: go3mf.MetadataGroup{Metadata: md()}})
	}
	checkValidate(t, m, "metadata", nil)
}

func validateRels(t *T) {
	r := t.R
	m := &go3mf.Model{Path: r.Pick("", "/3D/3dmodel.model", "/a.model")}
	paths := []string{"/3D/a.xml", "/3D/A.XML", "/3D/b.png", "/c", "/d/e.f", "/3D/.a", "/.", "/a/./b", "/a/../b", "", "a", "3D/b.png", "/", "/3D/missing", "/a.", "/é.xml", "/É.XML"}
	for i := r.Intn(6); i > 0; i-- {
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: paths[r.Intn(len(paths))], ContentType: r.Pick(go3mf.ContentTypePrintTicket, go3mf.ContentTypePrintTicket, "text/xml", ""), Stream: bytes.NewReader(nil)})
	}
	rels := func() (out []go3mf.Relationship) {
		for i := r.Intn(6); i > 0; i-- {
			p := paths[r.Intn(len(paths))]
			if len(m.Attachments) > 0 && r.P(2, 3) {
				p = m.Attachments[r.Intn(len(m.Attachments))].Path
			}
			out = append(out, go3mf.Relationship{ID: r.Pick("", "a", "b"), Path: p, Type: r.Pick(go3mf.RelTypePrintTicket, go3mf.RelTypePrintTicket, go3mf.RelTypeMustPreserve, go3mf.RelTypeThumbnail, "", nearRel(r), go3mf.RelTypePrintTicket+r.Pick("s", "/x"))})
		}
		return
	}
	m.Relationships, m.RootRelationships = rels(), rels()
	for i := r.Intn(3); i > 0; i-- {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[r.Pick("/c1.model", "/c2.model", "/a.model", "/3D/3dmodel.model")] = &go3mf.ChildModel{Relationships: rels()}
	}
	checkValidate(t, m, "relationships", nil)
}

// validateDirect calls the exported Validate of an object and of a group of
// base materials, whose paths begin at the element.
func validateDirect(t *T) {
	r := t.R
	m := validModel(r, validOpt{mat: r.Bool(), sli: r.Bool(), beam: r.Bool(), prod: r.Bool()})
	hist := corruptModel(r, m, r.Range(1, 6))
	v := &refVal{m: m, root: m.Path}
	if v.root == "" {
		v.root = "/3D/3dmodel.model"
	}
	one := func(part string, rs *go3mf.Resources) {
		for i, a := range rs.Assets {
			if b, ok := a.(*go3mf.BaseMaterials); ok {
				v.out = nil
				v.baseMaterials("", "", b)
				compareDirect(t, fmt.Sprintf("%s asset %d", part, i), b.Validate(m, part), v.out, hist, m)
			}
		}
		for i, o := range rs.Objects {
			v.out = nil
			v.oneObject("", part, "", o)
			compareDirect(t, fmt.Sprintf("%s object %d", part, i), o.Validate(m, part), v.out, hist, m)
		}
	}
	for p, c := range m.Childs {
		if p != v.root && p != "" {
			one(p, &c.Resources)
		}
	}
	one(v.root, &m.Resources)
}

func compareDirect(t *T, what string, err error, want []vErr, hist []string, m *go3mf.Model) {
	t.Eval(1)
	var wk, gk []string
	for _, w := range want {
		wk = append(wk, w.xpath+": "+w.err.Error())
	}
	for _, e := range flatten(err) {
		if w, ok := e.(*specerr.Error); ok {
			gk = append(gk, w.XPath()+": "+w.Err.Error())
		} else {
			gk = append(gk, ": "+e.Error())
		}
	}
	sort.Strings(wk)
	sort.Strings(gk)
	if missing, extra := multisetDiff(wk, gk); len(missing)+len(extra) > 0 {
		t.Fatal("direct", "%s: not reported %q, not expected %q\n%s\n%s", what, missing, extra, strings.Join(hist, "\n"), dumpText(m))
	}
	if len(want) > 0 {
		t.Distinct(strings.Join(wk, "\n"))
	}
}

// validateDecoded checks that a model without faults has none after a trip
// through a file, and that the one of a file with faults has the same ones.
func validateDecoded(t *T) {
	r := t.R
	m := validModel(r, validOpt{mat: r.Bool(), sli: r.Bool(), beam: r.Bool(), prod: r.Bool(), noVendor: true})
	b, err := encode(m, -1)
	if err != nil {
		t.Fatal("encode", "%v", err)
	}
	got, err := decode(b, true)
	if err != nil {
		t.Fatal("decode", "%v", err)
	}
	if want := checkValidate(t, got, "decoded", nil); len(want) > 0 {
		t.Fatal("decoded-faults", "a model without faults has them after a trip through a file: %v\n%s\nread:\n%s", want[0].key(), dumpText(m), dumpText(got))
	}
}

// indirectRecursion is the recorded finding: two objects that are components
// of each other.
func indirectRecursion(t *T) {
	m := &go3mf.Model{}
	comp := func(ids ...uint32) *go3mf.Components {
		c := &go3mf.Components{}
		for _, id := range ids {
			c.Component = append(c.Component, &go3mf.Component{ObjectID: id})
		}
		return c
	}
	m.Resources.Objects = []*go3mf.Object{{ID: 1, Components: comp(2)}, {ID: 2, Components: comp(1)}}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	found := false
	for _, e := range flatten(m.Validate()) {
		found = found || errors.Is(e, specerr.ErrRecursion)
	}
	if !found {
		t.Fail("indirect-recursion", "two objects that are components of each other are not reported")
	}
}

// vendorMetadata is the recorded finding: metadata of a declared vendor name
// space are reported once they have been read from a file.
func vendorMetadata(t *T) {
	doc := `<model xmlns="` + nsCore + `" xmlns:v="http://example.com/vendor"><metadata name="v:own">1</metadata><resources></resources><build></build></model>`
	m, err := decode(singlePackage([]byte(doc)), true)
	if err != nil {
		t.Fatal("decode", "%v", err)
	}
	switch errs := flatten(m.Validate()); {
	case len(errs) == 0:
	case len(errs) == 1 && errors.Is(errs[0], specerr.ErrMetadataNamespace):
		t.Fail("vendor-metadata", "the metadata v:own of a file that declares the prefix v is reported: %v", errs[0])
	default:
		t.Fatal("vendor-metadata-other", "a valid file is reported: %v", errs)
	}
}
