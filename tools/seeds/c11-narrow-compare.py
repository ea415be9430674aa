prop = 'C11'
pkg = 'internal/storage'
edits = [('internal/storage/small.go', '\t\tif rec.ClassObjectId == classObjectId {', '\t\tif uint32(rec.ClassObjectId) == uint32(classObjectId) {')]
needs = 'two class ids that agree in their low 32 bits'
breaks = 'the load record of another class is returned'
demo = 'package storage\n\nimport (\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/core"\n)\n\nfunc TestDemo(t *testing.T) {\n\tvar s SmallRecordsReadStorage\n\ts.HprofLoadClass = []core.HprofLoadClass{{ClassSerialNumber: 1, ClassObjectId: 1<<32 + 5}, {ClassSerialNumber: 2, ClassObjectId: 5}}\n\tif r, err := s.GetHprofLoadClassByClassObjectId(5); err != nil || r.ClassSerialNumber != 2 {\n\t\tt.Fatal(r, err)\n\t}\n}\n'
