prop = 'C15'
pkg = 'internal/java'
edits = [('internal/java/heap.go', '\tif class.SuperclassObjectId == 0 {', '\tif uint32(class.SuperclassObjectId) == 0 {')]
needs = 'a superclass whose id is a multiple of 2^32'
breaks = 'the superclass chain ends early'
demo = 'package java\n\nimport (\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/core"\n\t"github.com/danielleontiev/neojhat/internal/dump"\n\t"github.com/danielleontiev/neojhat/internal/storage"\n)\n\nfunc TestDemo(t *testing.T) {\n\ts := storage.NewSmallRecordsReadStorage()\n\ts.IdSize = 8\n\ts.HprofUtf8 = map[core.Identifier]core.HprofUtf8{1: {Identifier: 1, Characters: "A"}, 2: {Identifier: 2, Characters: "B"}}\n\ts.HprofLoadClass = []core.HprofLoadClass{{ClassObjectId: 10, ClassNameId: 1}, {ClassObjectId: 3 << 32, ClassNameId: 2}}\n\ts.HprofGcClassDump = map[core.Identifier]core.HprofGcClassDump{10: {ClassObjectId: 10, SuperclassObjectId: 3 << 32}, 3 << 32: {ClassObjectId: 3 << 32}}\n\tc, err := NewHeap(&dump.ParsedAccessor{IdentifierSize: 8, SmallRecordsReadStorage: s}).ParseClass(10)\n\tif err != nil || c.Superclass == nil || c.Superclass.Name != "B" {\n\t\tt.Fatal(c, err)\n\t}\n}\n'
