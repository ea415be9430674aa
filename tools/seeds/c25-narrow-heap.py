prop = 'C25'
pkg = 'internal/summary'
edits = [('internal/summary/summary.go', '\t\ttotalSize += sizeInfo.OfType(tpe) * num', '\t\ttotalSize += int(uint32(sizeInfo.OfType(tpe) * num))')]
needs = 'more than 4 GiB of one primitive type'
breaks = 'the heap size wraps at 32 bits'
demo = 'package summary\n\nimport (\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/core"\n\t"github.com/danielleontiev/neojhat/internal/dump"\n\t"github.com/danielleontiev/neojhat/internal/storage"\n)\n\nfunc accessor(m storage.MetaStorage) *dump.ParsedAccessor {\n\ts := storage.NewSmallRecordsReadStorage()\n\ts.IdSize = 8\n\ts.HprofUtf8 = map[core.Identifier]core.HprofUtf8{1: {Identifier: 1, Characters: "A"}}\n\ts.HprofLoadClass = []core.HprofLoadClass{{ClassObjectId: 10, ClassNameId: 1}}\n\ts.HprofGcClassDump = map[core.Identifier]core.HprofGcClassDump{10: {ClassObjectId: 10, InstanceSize: 100000}}\n\treturn &dump.ParsedAccessor{IdentifierSize: 8, SmallRecordsReadStorage: s, MetaReadStorage: &storage.MetaReadStorage{MetaStorage: m}}\n}\n\nfunc TestDemo(t *testing.T) {\n\th, err := getHeap(accessor(storage.MetaStorage{Counters: storage.Counters{PrimArrayElementsCount: map[core.JavaType]int{core.Long: 1 << 30}}}))\n\tif err != nil || h.HeapSize != 8<<30 {\n\t\tt.Fatal(h, err)\n\t}\n}\n'
