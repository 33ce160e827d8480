package main

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"PKG/vsched"
	vfilter "REPO"
	"REPO/types"
	"github.com/Velocidex/ordereddict"
)

type Dict = ordereddict.Dict

// show prints a VQL value in a canonical way.
func show(v any) string {
	switch t := v.(type) {
	case nil:
		return "NULL"
	case types.Null, *types.Null:
		return "NULL"
	case *ordereddict.Dict:
		if t == nil {
			return "nil"
		}
		var parts []string
		for _, i := range t.Items() {
			parts = append(parts, fmt.Sprintf("%s:%s", i.Key, show(i.Value)))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case string:
		return fmt.Sprintf("%q", t)
	case float64:
		return fmt.Sprintf("f%v", t)
	case float32:
		return fmt.Sprintf("f%v", t)
	case bool:
		return fmt.Sprint(t)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(rv.Uint())
	case reflect.Slice, reflect.Array:
		var parts []string
		for i := 0; i < rv.Len(); i++ {
			parts = append(parts, show(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.Map:
		var parts []string
		for _, k := range rv.MapKeys() {
			parts = append(parts, fmt.Sprintf("%v:%s", k.Interface(), show(rv.MapIndex(k).Interface())))
		}
		sort.Strings(parts)
		return "m{" + strings.Join(parts, ",") + "}"
	case reflect.Ptr:
		if rv.IsNil() {
			return "nil"
		}
	}
	return fmt.Sprintf("<%T>", v)
}

func rowDict(ctx context.Context, scope types.Scope, row vfilter.Row) *ordereddict.Dict {
	return vfilter.RowToDict(ctx, scope, row)
}

// collect drains a query.
func collect(ctx context.Context, scope types.Scope, q *vfilter.VQL) []*ordereddict.Dict {
	var res []*ordereddict.Dict
	for row := range q.Eval(ctx, scope) {
		res = append(res, rowDict(ctx, scope, row))
	}
	return res
}

func showRows(rows []*ordereddict.Dict) string {
	var parts []string
	for _, r := range rows {
		parts = append(parts, show(r))
	}
	return strings.Join(parts, ";")
}

// settle waits for everything to come to rest and complains about goroutines
// that are left.
func settle(t *T, what string) {
	if n := vsched.Quiesce(); n > 0 {
		t.Fail("leak:"+what, "%s: %d goroutines never finish: %s", what, n, vsched.Describe())
	}
}
