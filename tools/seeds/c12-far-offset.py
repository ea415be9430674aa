prop = 'C12'
pkg = 'internal/dump'
edits = [('internal/dump/parsed_accessor.go', 'a.heapDump.Seek(int64(offset), io.SeekStart)', 'a.heapDump.Seek(int64(uint32(offset)), io.SeekStart)')]
needs = 'a record beyond 4 GiB'
breaks = 'the record is read from another place of the dump'
demo = 'package dump\n\nimport (\n\t"io"\n\t"testing"\n\n\t"github.com/danielleontiev/neojhat/internal/storage"\n)\n\ntype far struct{ at int64 }\n\nfunc (f *far) Read(p []byte) (int, error)                { return 0, io.EOF }\nfunc (f *far) Seek(o int64, w int) (int64, error)         { f.at = o; return o, nil }\n\nfunc TestDemo(t *testing.T) {\n\tvs := make([]*storage.RamWriteVolume, 3)\n\tfor i := range vs {\n\t\tvs[i] = storage.NewRamWriteVolume()\n\t}\n\tw := storage.NewBigRecordsWriteStorage(vs[0], vs[1], vs[2])\n\tw.HprofGcInstanceDumpPutOffset(7, 5<<32+3)\n\tw.Close()\n\trd := func(i int) *storage.RamReadVolume { return storage.NewRamReadVolume(vs[i].Bytes()) }\n\tr, err := storage.NewBigRecordsReadStorage(rd(0), vs[0].Len(), rd(1), vs[1].Len(), rd(2), vs[2].Len())\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tf := &far{}\n\tsmall := storage.NewSmallRecordsReadStorage()\n\tsmall.IdSize = 8\n\tNewParsedAccessor(f, r, small, storage.NewMetaReadStorage()).GetHprofGcInstanceDump(7)\n\tif f.at != 5<<32+3 {\n\t\tt.Fatal(f.at)\n\t}\n}\n'
