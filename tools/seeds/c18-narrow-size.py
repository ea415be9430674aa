prop = 'C18'
pkg = 'internal/objects'
edits = [('internal/objects/objects.go', '\t\tsize := int(classDump.InstanceSize) * instancesCount', '\t\tsize := int(classDump.InstanceSize * int32(instancesCount))')]
needs = 'a class whose instances take more than 4 GiB'
breaks = 'the size of the row and the total wrap at 32 bits'
demo = 'package objects\n\nimport (\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/core"\n\t"github.com/danielleontiev/neojhat/internal/dump"\n\t"github.com/danielleontiev/neojhat/internal/storage"\n)\n\nfunc accessor(m storage.MetaStorage) *dump.ParsedAccessor {\n\ts := storage.NewSmallRecordsReadStorage()\n\ts.IdSize = 8\n\ts.HprofUtf8 = map[core.Identifier]core.HprofUtf8{1: {Identifier: 1, Characters: "A"}}\n\ts.HprofLoadClass = []core.HprofLoadClass{{ClassObjectId: 10, ClassNameId: 1}}\n\ts.HprofGcClassDump = map[core.Identifier]core.HprofGcClassDump{10: {ClassObjectId: 10, InstanceSize: 100000}}\n\treturn &dump.ParsedAccessor{IdentifierSize: 8, SmallRecordsReadStorage: s, MetaReadStorage: &storage.MetaReadStorage{MetaStorage: m}}\n}\n\nfunc TestDemo(t *testing.T) {\n\to, err := GetObjects(accessor(storage.MetaStorage{Counters: storage.Counters{InstancesCount: map[core.Identifier]int{10: 100000}}}), Size)\n\tif err != nil || o.TotalSize != 10000000000 || o.Items[0].TotalSize != 10000000000 {\n\t\tt.Fatal(o, err)\n\t}\n}\n'
