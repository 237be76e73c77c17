package c15

import (
	"io/ioutil"

	rt "github.com/boynton/sadl/zzrt"
)

func write(path, text string) {
	rt.Assert(ioutil.WriteFile(path, []byte(text), 0644) == nil, "write")
}
