package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// warmup fills caches of the standard library (and of nothing else), so that a run behaves the same whether or not others
// went before it in the same process.
func warmup() {
	type st struct {
		A int `dgo:"x"`
		B []string
	}
	_ = fmt.Sprintf("%v %+v %#v %q %d %s %x %T %5.2f", st{}, &st{}, []int{1}, "x", 1, errors.New("e"), []byte{1}, st{}, 1.5)
	b, _ := json.Marshal(map[string]interface{}{"a": []interface{}{1, "x", nil, true, 1.5}})
	var i interface{}
	_ = json.Unmarshal(b, &i)
	d := json.NewDecoder(strings.NewReader(`{"a":[1,2.5,null,"x"]}`))
	d.UseNumber()
	for {
		if _, err := d.Token(); err != nil {
			break
		}
	}
	r := regexp.MustCompile(`^a+(b|c)*$`)
	_ = r.MatchString(`aabc`)
	_ = r.FindStringSubmatch(`aabc`)
	_ = regexp.MustCompile(`\A[A-Z]`).MatchString(`Abc`)
	t := reflect.TypeOf(st{})
	for i := 0; i < t.NumField(); i++ {
		_ = t.Field(i).Tag.Get(`dgo`)
	}
	_ = reflect.MapOf(reflect.TypeOf(``), reflect.TypeOf(0))
	_ = reflect.SliceOf(reflect.TypeOf(0))
	_ = reflect.PtrTo(t)
	_ = reflect.DeepEqual(st{}, st{})
	_, _ = time.Parse(time.RFC3339Nano, `2020-01-02T03:04:05Z`)
	_ = time.Unix(0, 1).UTC().Format(time.RFC3339Nano)
	_ = time.Now().String()
	sort.Slice([]int{1}, func(int, int) bool { return false })
	_, _ = strconv.ParseFloat(`1.5e10`, 64)
	_ = base64.StdEncoding.EncodeToString([]byte{1})
}
