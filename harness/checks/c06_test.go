package checks

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"verifharness/capi"
	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

// diffVar compares a variable as the API reads it, whole, with what the HDF5
// library reads.
func diffVar(g api.Group, o *capi.HObj) string {
	v, err := g.GetVariable(o.Name)
	if err != nil {
		return fmt.Sprintf("GetVariable(%.60q): %v", o.Name, err)
	}
	if d := capi.CanonDiff(capi.Canon(v.Values), o.Value(), ""); d != "" {
		return fmt.Sprintf("variable %.60q: %s", o.Name, d)
	}
	vg, err := g.GetVarGetter(o.Name)
	if err != nil {
		return fmt.Sprintf("GetVarGetter(%.60q): %v", o.Name, err)
	}
	vals, err := vg.Values()
	if err != nil {
		return fmt.Sprintf("Values of %.60q: %v", o.Name, err)
	}
	if d := capi.CanonDiff(capi.Canon(vals), o.Value(), ""); d != "" {
		return fmt.Sprintf("Values of variable %.60q: %s", o.Name, d)
	}
	return ""
}

func TestC06Storage(t *testing.T) {
	rule := "HDF5 files with 1 to 3 datasets made by the HDF5 library: every standard type, layout, chunk shape, filter combination, extent change, partial write and fill value; every value compared with what the HDF5 library reads; non-trivial: a dataset has more than one element"
	h.Check(t, "C06", rule, 16000, 400000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c06.nc")
		g := newHGen(rt)
		g.newFile(path)
		for i := g.pick("nds", 1, 3); i > 0; i-- {
			o := dsOpts{maxRank: 5, maxElems: 200, filters: true, unwritten: true}
			if g.pc("large", 5) {
				o.maxElems = 20000
			}
			g.dataset(0, fmt.Sprintf("d%d", i), g.stdType(true), o)
		}
		g.add("HCLOSE")
		if _, err := capi.Do(g.cmds...); err != nil {
			r.Discarded("refused by the C library")
			return
		}
		root, err := capi.HDumpFile(path)
		if err != nil {
			capi.Infra("HDUMP: %v of %s", err, g.desc())
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		for _, o := range root.Kids {
			if d := diffVar(nc, o); d != "" {
				rt.Fatalf("%s\ntype %s shape %v\n%s", d, o.Type.Text, o.Shape, g.desc())
			}
		}
		r.Case(g.nontriv, g.desc(), g.classList()...)
	})
}

func TestC06NetCDF(t *testing.T) {
	rule := "NetCDF-4 files made by the NetCDF library with variables of standard types in groups, of any storage, byte order and fill value, partly written, with unlimited dimensions; every value compared with what the HDF5 library reads; non-trivial: something of more than one element was written"
	h.Check(t, "C06", rule, 8000, 200000, func(rt *rapid.T, r *h.Rec) {
		path := h.Path("c06n.nc")
		g := ncProgram(rt, path, ncOpts{maxVars: 8, maxGroups: 2, maxElems: 400, maxAtts: 1, partial: true})
		f := makeNC(r, g, path)
		if f == nil {
			return
		}
		nc, err := hdf5.Open(path)
		if err != nil {
			rt.Fatalf("Open: %v\n%s", err, g.desc())
		}
		defer nc.Close()
		if d := cmpGroup(nc, f.nc.Root, f.h, "", parts{values: true}); d != "" {
			rt.Fatalf("%s\n%s", d, g.desc())
		}
		r.Case(g.nontriv, g.desc(), g.classList()...)
	})
}
