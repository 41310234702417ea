package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
)

type schemaConf struct {
	conf         string
	size, deep   int // constructors
	max, maxDeep int // cases replayed
}

type schemaCheck struct {
	id, rule string
	mask     []string
	confs    []schemaConf
	random   [2]int
	api      []string // mask for histories of set up calls
}

func (r *run) schemaDefs(a *schemaCheck) ([]*sDef, error) {
	defs := []*sDef{}
	for _, g := range a.confs {
		lines, err := r.specLines("SchemaGen", g.conf, r.n(g.size, g.deep), r.n(g.max, g.maxDeep))
		if err != nil {
			return nil, err
		}
		for _, l := range lines {
			d := &sDef{}
			if err := json.Unmarshal([]byte(l), d); err != nil {
				return nil, fmt.Errorf("%v in %s", err, l)
			}
			defs = append(defs, d)
		}
	}
	for i := r.n(a.random[0], a.random[1]); i > 0; i-- {
		defs = append(defs, randomDef(r.rng))
	}
	return defs, nil
}

func init() {
	hidden, ianon := schemaConf{"hidden", 1, 1, 1000, 1000}, schemaConf{"ianon", 1, 1, 1000, 1000}
	all := []schemaConf{{"types", 1, 2, 1000, 100000}, {"tags", 1, 1, 500, 100000}, {"names", 1, 1, 200, 1000}, {"typenames", 1, 1, 400, 1000}, {"funcs", 1, 1, 500, 100000}, {"roots", 1, 1, 400, 1000}}
	for _, a := range []*schemaCheck{
		{id: "C14", mask: []string{"types", "exec", "args"}, confs: append(all[:len(all):len(all)], ianon), random: [2]int{600, 4000}, api: []string{"types"}},
		{id: "C21", mask: []string{"verdict", "types", "exec", "fields"}, confs: append(all[:len(all):len(all)], hidden, ianon), random: [2]int{600, 4000}, api: []string{"exec"}},
		{id: "C25", mask: []string{"helpers"}, confs: all, random: [2]int{600, 4000}},
	} {
		a := a
		checks[a.id] = checkDef{id: a.id, level: "model_checking", rule: a.rule, run: func(r *run) error {
			if os.Getenv("YV_API") != "" { // while working on it
				return r.apiBatch(a.api)
			}
			defs, err := r.schemaDefs(a)
			if err != nil {
				return err
			}
			cases := make([]interface{}, len(defs))
			for i, d := range defs {
				d.I = i
				cases[i] = d
			}
			if err := r.buildSchemas(defs); err != nil {
				return err
			}
			// at most 12 mismatches are looked at: those that are known are apart, in small portions
			main := []interface{}{}
			known := map[string][]interface{}{}
			for _, c := range cases {
				if k := c.(*sDef).Known; k != "" {
					known[k] = append(known[k], c)
				} else {
					main = append(main, c)
				}
			}
			if err := r.validate("schema", "SchemaTrace", main, a.mask); err != nil {
				return err
			}
			kinds := []string{}
			for k := range known {
				kinds = append(kinds, k)
			}
			sort.Strings(kinds)
			if len(a.api) > 0 {
				if err := r.apiBatch(a.api); err != nil {
					return err
				}
			}
			for _, k := range kinds {
				for cs := known[k]; len(cs) > 0; {
					n := min(len(cs), 12)
					if err := r.validate("schema", "SchemaTrace", cs[:n], a.mask); err != nil {
						return err
					}
					cs = cs[n:]
				}
			}
			return nil
		}}
	}
}
