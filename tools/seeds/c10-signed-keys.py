prop = 'C10'
pkg = 'internal/storage'
edits = [('internal/storage/index.go', '\t\tif keyValue < key {', '\t\tif int64(keyValue) < int64(key) {')]
needs = 'keys on both sides of 2^63'
breaks = 'present keys are reported as missing'
demo = 'package storage\n\nimport "testing"\n\nfunc TestDemo(t *testing.T) {\n\tv := NewRamWriteVolume()\n\tw := NewIndexRecordsWriteStorage(v, 100)\n\tkeys := []uint64{1, 2, 3, 1<<63 + 1, 1<<63 + 2}\n\tfor i, k := range keys {\n\t\tif err := w.Put(k, uint64(i)); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tw.Close()\n\tr, err := NewIndexRecordsReadStorage(NewRamReadVolume(v.Bytes()), v.Len())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tfor i, k := range keys {\n\t\tif g, err := r.Get(k); err != nil || g != uint64(i) {\n\t\t\tt.Fatalf("%d: %d %v", k, g, err)\n\t\t}\n\t}\n}\n'
