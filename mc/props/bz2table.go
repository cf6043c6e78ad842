package props

// Code generated by tools/mkbz2.py. DO NOT EDIT.

// bz2Table maps the SHA-256 of a fixed document to its bzip2 form.
var bz2Table = map[string][]byte{
	"d06fa96369fd24a7dee5326d1490d8c6aad102d377d08afeddd6572cb314cd15": []byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x01\x05\x92\xee\x00\x00\x91\x5f\x80\x00\x10\x40\x03\xff\xf0\x34\x42\xc8\x00\x3f\xeb\xfe\x70\x30\x01\x5b\x53\x1a\x20\x89\xa6\x4d\x30\x98\x48\xc2\x34\x64\x68\xd0\xc8\x45\x3d\x0c\xa7\xa0\xd3\x4a\x64\x00\x00\x00\x04\xa2\x11\xa6\x88\xcd\x34\x9a\x03\x40\x01\xa6\x9a\x58\x7c\x15\x70\xc7\x26\xe6\xc3\x93\xce\x66\xb8\xda\xea\x95\x2f\x4b\x58\xd2\x42\xf4\xcc\x2b\xbd\x1b\xf0\x2e\xdd\xda\xc1\x8d\xa9\xa8\xe1\x64\x89\x0e\x1d\x25\x8d\x31\x80\xdc\xd1\xd9\x10\x53\x34\x1a\xd1\xa4\xba\x68\xdb\x49\x0a\x73\x65\x99\x46\x65\x78\xe5\x86\x88\xd7\x4d\xb6\xb5\xe2\xce\x54\x3c\x61\x65\x43\x94\x9a\x2c\xa3\x4c\x06\x24\x49\x9f\x0a\xca\x23\xa6\x6a\xea\x29\x95\xf6\x7c\xd6\x52\x50\x17\x09\x40\xc2\xf8\x8e\xf3\x74\x15\x6a\xb0\x07\x5c\xca\x66\x21\x0b\x3a\x62\xf8\x93\xed\x85\xc6\x0d\x22\x46\x17\x64\x7c\x01\xcf\x48\x04\x49\x29\x17\xb1\xa2\x09\x2b\xca\xb3\xa5\xf7\x85\x42\x4a\xcc\x24\xb8\x14\x76\x50\xb5\xd4\xd8\x19\x7b\x4d\xa5\xeb\x30\xc3\x2d\x0d\xa8\x1c\xc1\xa0\x90\x14\xad\x6b\x82\x6d\x8d\xa8\x84\xb5\x15\x9a\x9d\x86\x60\x0f\x19\x8c\x9c\xf7\xba\xf7\xbc\x8e\x7c\x79\xab\x19\x8c\x52\xaa\x97\x1c\x18\x82\x3a\x09\xbb\x87\x41\xcb\xb4\x2b\x7a\x13\x79\xee\xca\xe1\x28\x55\x69\x4a\xc6\x22\x36\x4a\x34\x24\x2d\x4d\x86\x71\x95\x38\xec\x39\xb3\x3d\x6b\xa6\x0f\xae\x04\x89\x4a\xe9\x4f\x7d\x29\x8e\xdb\x9a\x12\xd4\x91\x76\x77\x22\xc8\x1e\x8b\x00\xc9\x50\xdd\x57\x76\xd1\x40\xc9\xf2\x74\x13\x00\x12\xcb\x66\x6f\xc3\x16\x14\x0a\xb7\xe2\x03\x45\x5f\xc5\xdc\x91\x4e\x14\x24\x00\x41\x64\xbb\x80"),
	"c59d0e5481284cdb4749f88bb2412e550cfb897d8f5da24ac1912a53e16eab81": []byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x4c\x4e\x5b\x11\x00\x00\x4a\xdf\x80\x00\x10\x40\x02\xff\xf0\x24\x42\xc8\x00\x3f\xab\xde\x60\x30\x00\xc9\x61\x1a\x89\x84\x6a\x7a\x69\xb5\x1a\x68\x8f\x50\xf5\x34\x7a\x80\x44\xd4\xf2\xa7\xea\x6d\x0c\xa6\x48\x32\x0d\x1a\x00\x15\xe9\x26\x8c\x4c\x83\x40\x00\x00\xc9\x6c\x87\x4f\xbf\x16\xb2\x41\x3d\xf9\xde\xa3\x08\x49\x7e\x11\x16\x0d\x3c\xe5\x12\xf0\xba\xe3\x76\x13\x9a\xf0\xae\xa7\xbc\x1c\xd9\xa2\x10\xed\xbd\x92\x94\x90\xae\x02\x66\x30\x72\xa4\x75\x66\x2d\x64\xfc\xcc\xd5\xae\x0b\xa0\xa2\xf6\x52\x39\xe3\x03\xa5\x6b\x8a\x96\xcb\x21\x24\x66\xec\xd2\xae\x11\x33\x28\x93\x48\x13\xd6\xeb\x0e\x81\xd7\x8f\x70\x10\xed\x01\x07\xbf\x7c\xf9\x4b\x80\xc4\xc2\xc3\x21\xc0\x88\xd1\xd3\xda\x86\x15\x06\x3d\xaa\x49\x6e\x2b\x46\x5d\xa5\x0f\x99\x84\x6b\x7c\xa0\xe5\x47\x32\x7b\xa7\xf0\x6d\xd2\xd1\x5a\xda\xd7\x46\x3d\x69\xc3\x2a\x0c\x47\x02\x15\x04\x82\x50\x79\x03\x5a\x47\x7a\x64\x17\x98\xcf\x54\x3b\x3a\x1a\x3f\x17\x72\x45\x38\x50\x90\x4c\x4e\x5b\x11"),
	"02edf05e90021591fa5677b6d7d5be10de9daf9704646179a3f672136bc33335": []byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x03\x7a\x67\x2b\x00\x00\x24\xdf\x80\x20\x10\x40\x0b\xff\xf2\x36\xe3\xfe\x00\x3f\xeb\xfe\x70\x30\x01\x5a\xda\xb2\x88\x49\x94\xd3\x62\x34\xda\x53\x46\x08\x32\x00\x64\xd3\x46\x86\x42\x2a\x7a\x7a\x65\x4f\x4d\xa8\x7a\x50\x00\x64\xd0\x01\xea\x34\x00\x06\x44\xd4\xc8\x01\x92\x8c\x04\xd1\xa0\xf2\x83\x41\xa6\x4c\x46\x06\x85\x89\xe3\x97\x56\x5b\xbf\xba\x33\xe9\x40\x9e\xc8\x25\x56\x7d\x7b\x91\x2d\xf2\x29\x01\xa4\xe6\x57\x18\xc8\x10\x36\x8a\x06\xcc\x80\x1b\x20\x9f\x00\x09\x48\xee\xa7\x5d\xa5\xba\x00\x96\xe5\x5d\x39\xd9\x5a\xcf\x2b\xe6\x3b\x13\xb6\x18\xb8\x2d\xab\x5c\x50\x42\x7c\xa6\xc6\xcb\x32\xd0\xfb\x90\x14\x06\x18\x20\x31\x64\x14\x33\x06\x00\x2c\x0c\xa1\x32\x2d\x04\x8b\x01\x73\x91\x2b\x6b\x5f\xb2\x66\xbe\xca\x5c\x2c\x71\xb9\x56\x2f\xa5\x1c\xcb\x74\x8c\xc2\xe9\x4d\x2b\xdc\xae\x83\x9f\x54\x1d\x6c\xef\x69\x9b\x3b\xe7\x48\x3d\x50\x88\x50\x6d\x98\x1f\x9e\xf8\x2e\xb2\x4c\x7c\x2d\x59\x58\x0e\x90\xaa\xa6\xc4\xac\x08\xb6\x20\xe3\xad\xc1\xbc\xe2\x6b\x35\x56\xa6\xa1\xf4\xdb\xa0\x18\x4e\x8c\x85\x8e\xf3\xfb\xc0\x50\xf1\x30\x10\x7f\x75\x83\x80\xd5\x97\x7e\xac\x5b\x67\x2b\xf5\x0a\xcf\x56\x03\x58\x04\xe3\x58\xa2\xa0\x8f\x8b\x79\xb2\x36\x9f\xa5\xfd\x53\x28\xe7\x81\x24\x94\x19\xe0\x8b\x10\x48\xcd\x6d\x3d\xd5\x98\xa8\xb1\x56\x4c\x26\xd2\xaa\x1c\xb4\x39\xac\x2c\xf2\x13\x5e\x7f\x43\xbe\x5c\x60\x55\xde\xe3\x7c\x99\x09\x19\xae\x24\x69\x80\xe3\x80\xf3\xc1\x80\x8e\x73\x7b\x75\xc0\xa4\x40\x81\x4a\x40\xe6\x84\x69\xaf\x27\x4f\x38\x57\xf3\x6a\x0e\xc0\x50\xed\xfb\x0e\x39\x42\xa0\x44\x19\x60\x42\x84\xdf\xfc\x5d\xc9\x14\xe1\x42\x40\x0d\xe9\x9c\xac"),
	"c5cce323ffb4df514965f1211acada232f159406d824da84f434a937df4ee493": []byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\xe1\xe2\xd1\x30\x00\x00\x36\x5f\x80\x00\x10\x40\x00\x7f\xf0\x24\x42\x88\x00\x3f\xa3\xde\x40\x20\x00\x92\x11\x4d\xa9\x93\xca\x34\x34\x34\x32\x68\x1a\x7a\x41\x2a\xa7\xe8\xd2\x9e\x14\xcf\x44\x9e\xa0\x7a\x4d\x00\x64\x74\xfd\xf5\xee\x3b\x10\x7a\x08\x48\xaf\x5d\x0c\x5b\x30\x86\x66\xf8\xda\xf5\x7e\xe7\x58\x9d\xc3\x16\x92\xdc\x66\x68\xf2\xa4\x84\xa3\x4f\x9a\x51\xb2\x07\xa5\x68\x8a\xe2\x0a\x34\xc8\xab\x30\xba\x6b\x4f\x1c\x3c\xcd\x30\x6b\x1e\x81\x40\x19\x39\xbb\xbb\x08\xc0\x96\xf7\x5a\x84\x4a\xd0\x8f\x56\x9a\x43\xb6\x1c\xd9\x36\x0d\x2f\x4b\x02\x4a\x14\x7f\x28\x54\x90\xd4\xbf\xc5\xdc\x91\x4e\x14\x24\x38\x78\xb4\x4c\x00"),
	"6adebc0103fc055dff6d6b722991e150bbc70be385134803cdfc0cc09d39a59f": []byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x3a\xf9\xf0\xc8\x00\x00\x9e\xdf\x80\x00\x10\x40\x01\xff\xf0\x25\x42\x48\x00\x3f\xaf\xde\x50\x30\x01\x5a\x36\xdb\x08\x99\x34\x35\x3c\x9a\x34\xa8\x6c\x50\x34\x00\x04\x26\x4d\x34\xc9\x4f\xd4\x9b\x51\xa0\x00\x00\x06\xd4\x94\xfc\xa1\xa0\x84\xf6\xa8\xf5\x0d\xa1\x90\x04\x57\xfb\x9e\x65\x47\x93\x32\xdb\xaf\x92\xb4\xb6\x53\x96\xd1\xca\x02\x61\x98\x61\x2c\x0a\xac\xb3\x53\xbc\x42\x21\x03\xa1\xe3\x53\x76\xb5\xa8\x31\xd1\x41\x56\x61\xd4\x6b\x1d\x2e\xba\x27\x10\xe3\x85\x33\x65\xa4\x60\x30\xdb\x5e\x98\x39\xde\x46\x18\x1b\x87\x00\xf3\xb3\xcd\x0a\xb9\xb2\xc0\xdd\x5b\x29\x0e\x81\x7d\x08\x33\x75\x02\x03\x34\xa3\xa1\xe8\x93\x2e\x72\xa8\x24\x52\x59\x98\xe7\x1b\x57\xbc\x2c\xb3\xca\x00\xe7\x0d\x12\x62\x8a\x20\x4d\x2e\x54\x8d\x18\x5c\xd5\x02\xd5\x80\xba\x95\xc2\x2a\x94\x67\x62\xb1\xbe\x28\x12\x6a\x94\x19\xd3\x3e\x38\x12\x4d\x1d\x89\x70\x9e\xdd\x8c\xba\xb1\x25\x2d\xdb\x11\xd8\xe4\x97\x35\xc1\x1a\xa4\xc9\x14\x2f\xae\xdd\xf2\xc1\x3d\x1e\x35\x30\xdd\x5e\xff\x12\x89\x34\xbb\x6a\xdb\xa7\x70\x56\x62\x2b\xc9\x67\x7a\xf2\x5c\xf6\x3a\x6c\xf6\x82\x25\xa6\xce\x56\x54\x3c\x61\x65\xf6\x2e\x74\x94\x24\x14\xce\xcc\xf9\x4a\x99\x29\xaf\x51\xc3\xd8\xa8\x34\x5b\x4c\xed\x7a\xbe\x8f\xc0\x3e\x87\x90\x9a\xd4\x02\x78\xfd\x3c\xb2\xe8\x68\x76\x23\x1c\xa7\xbf\xe2\xe5\x46\x78\xa5\x5f\x8e\xf2\x85\xf2\x78\x2f\x32\x34\x46\x27\xa3\xd1\xed\x58\x72\x1c\xb8\x62\x0f\x27\x02\x3d\xb3\x33\x30\xe4\x13\x2b\x34\x5f\xc5\x44\xce\x8a\x0b\x11\xfe\x2e\xe4\x8a\x70\xa1\x20\x75\xf3\xe1\x90"),
	"e1e8094b920cdb8803688d89f927469ebf55362cb380d75f49ba6c883da19b7b": []byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x44\xcf\xa1\x26\x00\x00\x9d\xdf\x80\x00\x10\x40\x01\xff\xf0\x25\x42\x48\x00\x3f\xaf\xde\x50\x30\x01\x7a\x66\xdb\x31\x13\x46\x81\xa3\x22\x43\x08\x1a\x00\x02\x13\x26\x99\x0a\x78\x28\xd0\x00\x03\x40\x36\xa2\xa7\xe5\x26\xd4\xd3\x49\xa7\xb5\x27\xa8\x6d\x4f\x53\xc9\x34\x61\x3e\x72\xc8\x93\xb1\x91\x4d\xd7\x3a\xa2\xde\xf4\x7e\x04\x15\x04\xc3\x30\xc2\x57\x96\x5b\x6e\xa7\xec\xca\x71\x02\x79\x2e\x0e\x4a\x46\x2f\x1b\xe2\x60\x66\xe0\xd4\x61\x7c\x6a\x78\x35\x04\x33\xcc\xc8\xa8\x6f\xba\x82\xd2\x75\x7a\x93\xaa\xc2\x05\x1a\x86\x60\x8e\x8a\x38\x5f\x68\x1d\xc6\xb3\x3b\x4a\xea\x93\x06\xe0\x21\x4a\x6a\x0d\x02\x29\x3d\x19\xf8\x26\xb5\x1e\x30\x06\xba\x0d\x8d\xd6\xac\x61\xbc\x16\x47\x66\x07\x5a\xb3\xb8\xcc\xae\x8c\x06\xda\x09\x2f\x83\x0c\x1a\xa0\x4d\xa8\x18\x52\xc0\x51\x92\x11\x94\x4a\x67\x2b\xa0\x3a\x2c\x54\x33\x85\xaf\x52\x47\xa4\xa2\x4b\x58\xf0\xd8\xcb\xf1\x87\x4f\xe9\xb1\x1d\x4c\xd2\xfb\x5c\xd1\xaa\x4c\xae\x61\x2a\x8f\xb7\x77\x17\xbd\x45\x62\x75\x2f\xb4\x72\xf0\xcb\xb2\x8c\xdb\x0a\x65\x2d\xc1\x07\x08\x9e\x8d\xb6\x50\xd1\xba\x6c\x49\x4d\x23\x76\xb4\xdf\x34\x6c\x4e\x44\xaa\x63\x98\xc8\xe0\xea\x25\x09\xe7\x38\xcb\x27\x43\x25\x35\xec\x35\xcc\x54\x23\x49\xea\x7c\xf0\xd2\xd3\xf8\x07\xd8\xf3\x13\x56\x4a\x98\x7b\x43\xe3\xd0\xd0\xea\x4e\x18\xd3\x8f\xad\xca\xad\x13\x5b\x3e\x22\x1e\x57\x23\xf8\xde\x62\x68\x8c\x0e\xe7\x73\xc2\xb4\xcc\x82\xe1\x89\x3b\x1c\xc9\xf0\xcc\xcc\xc4\x12\x50\xda\x68\xbc\x96\x14\x3a\x29\x2d\x47\xf1\x77\x24\x53\x85\x09\x04\x4c\xfa\x12\x60"),
	"8aed0c367e13f388ecf89876a2deaa170d73fcfe43bc5f6430104b18c7adfc42": []byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x63\x94\xfe\x92\x00\x01\x09\x5f\x80\x00\x10\x40\x03\xff\xf0\x0d\x04\x48\x00\x3f\xee\xde\x70\x40\x02\x3c\xc0\x5b\x16\x10\x4a\x7b\x29\x93\x4d\x32\x9f\xa9\x89\x06\x40\x00\x14\xc9\x81\x31\x09\x53\xf5\x41\xea\x18\x40\x00\x60\x06\x4d\x34\x19\x0c\x10\xd3\x11\xa3\x02\x29\x4d\x04\xc4\x9b\xd4\xd3\x49\xa3\x4d\x1e\xa3\x4c\x4c\x7a\xa5\x1d\xa1\xc5\x88\x60\x2a\xa4\x1d\xda\x8c\x71\xd7\xa8\x23\x49\x4f\x71\xf3\x2d\xda\xbd\x74\xc0\x77\x8c\x5e\x30\xd1\x8d\xa3\x0e\x0d\xac\xc3\x41\x90\xf8\x1e\xcd\x76\x5f\xcc\xba\x2e\xae\x25\x5f\x23\x29\xdd\x5e\x7c\xb2\x96\x7d\xc6\x5b\x3d\x8b\x06\x3d\xb8\x2c\xe7\x69\x9d\x9e\x2b\x67\xe1\xbc\x2e\x69\xdd\xcd\x79\x56\x7e\x6c\x92\xb3\xac\xed\xa7\x9b\x4a\xd4\xbd\xc8\xfa\xd2\x9d\x6f\x01\xb5\x47\x8d\x9e\x18\xa4\x72\xae\x1d\x5a\xee\xe9\x9b\x2c\xe2\xd0\xc8\x76\x04\x35\x40\x55\x1e\xa9\xa4\x8a\xd3\x9a\xab\x5e\x1d\xf3\x34\x91\x39\x53\x06\x53\x4c\xd7\x31\xb1\x00\x3c\x27\x23\x71\x5a\x5d\x71\x1e\x85\x71\x39\x68\x76\xd2\xc4\xed\x5e\xdb\x01\xbe\xf1\xc3\x2c\xb7\x32\x24\xe5\xab\x60\x47\x02\xf0\x58\xb2\x50\x04\xcc\xa9\x22\x6b\x86\xb9\xd2\x6a\xf3\x1a\x1c\xc6\x1d\x46\x27\x0e\x0e\x49\x5b\xa0\x3d\x09\x53\x68\x74\x67\x2b\x06\x8c\xba\xd1\x05\x16\x65\xd6\x20\xd1\x45\xf6\xb1\x64\x74\xe1\xc2\xc1\x9f\x0f\x20\x25\xbc\x01\x43\xb2\xd6\x9d\xb0\x53\x48\xfb\x19\xdc\x70\x64\xca\xcd\x1a\x53\x4e\x24\xf3\x4f\x10\x73\x88\x9c\xaf\x95\xb9\x44\x47\x97\xdd\x9b\xc1\x0f\x86\x06\x03\x60\xee\xaf\x3e\xbb\xe1\x89\xe7\x97\x0d\x59\x67\x84\x25\x88\xa0\x05\x7d\x2a\x2d\xb5\x18\xd0\xb1\xf6\x01\xc6\x04\xf5\xbf\x12\xf4\x03\x98\x0a\x4c\x50\x06\x2a\xac\x9c\xe4\xde\x59\x44\x91\x7b\x04\xab\x7b\x27\x81\xdb\x64\x94\xd6\xcb\x4d\x08\x3a\x37\xd4\x24\x15\xbc\x5a\xe4\x3d\x84\x44\x0d\xa2\x91\x1e\x11\xca\xc9\xb9\x3c\x12\xf7\x37\xbc\x5e\xe7\xcb\x4f\x4c\x50\xc7\x10\x58\x48\x11\xe8\x8c\x94\xd2\x4e\x43\x71\x20\xf8\x3c\xeb\xa0\x76\xbb\x3d\x97\xd2\xd7\x3f\xcd\xf6\x31\x67\x59\xd7\x2d\x8d\xb7\x41\x9b\xd4\x05\xd9\xd9\x80\x68\x32\x7e\x07\x94\x71\x6e\xc7\xe8\x0e\x05\x2c\x2a\xab\x71\x9b\x1d\x4c\x8e\x12\x35\x9c\xd1\x22\xe8\x5c\x81\x53\x95\xf6\x63\x21\xec\x1f\xa1\xd4\xea\xf6\x76\x89\xe1\xee\x50\x2a\x68\xfe\x3c\x5d\x63\x6b\x63\x26\x81\x47\xd8\xc8\x6d\x7a\x07\x47\xa0\xec\x6a\x0b\xd9\x0c\x3c\xdf\x23\xfe\x2e\xe4\x8a\x70\xa1\x20\xc7\x29\xfd\x24"),
}
