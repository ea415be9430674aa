prop = 'C14'
pkg = 'internal/storage'
edits = [('internal/storage/meta.go', '\t\ts.MetaStorage.Counters.PrimArrayElementsCount[o.ElementType] += int(o.NumberOfElements)', '\t\ts.MetaStorage.Counters.PrimArrayElementsCount[o.ElementType] += int(int32(o.NumberOfElements))')]
needs = 'a primitive array with more than 2^31 elements'
breaks = 'the element counter goes down instead of up'
demo = 'package storage\n\nimport (\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/core"\n)\n\nfunc TestDemo(t *testing.T) {\n\ts := NewMetaWriteStorage()\n\ts.AddInstance(core.HprofGcPrimArrayDumpHeader{ElementType: core.Byte, NumberOfElements: 3000000000})\n\tif n := s.Counters.PrimArrayElementsCount[core.Byte]; n != 3000000000 {\n\t\tt.Fatal(n)\n\t}\n}\n'
