// model states at 4 GiB: Z4G_r after absorbing the smallest multiple of r above 2^32 zero bytes, OUT4G_r at the last block of an output of that length for the empty input (checked by tools/selftest.py)
static const uint64_t Z4G_168[25] = {0x65f37a94730f4e23ull, 0xf6eb7d7047ed535cull, 0x284e646e7cd83331ull, 0x9e8c429f95b2c18eull, 0xc3d0fa173d42da8cull, 0x54531544c126f4cdull, 0x6854d0668a2a833full, 0xfa9b5fea546cdb6dull, 0xa3fba93d849427daull, 0xcace7f2640cd6a6dull, 0x401404a34699a5c8ull, 0x06dbbf309f1df9b1ull, 0x334019041cd579d8ull, 0xd35ecc864b619088ull, 0x3e08d6b2f2b9c5b9ull, 0x6d8f2627517acc82ull, 0x3a9a26b5eab8ac60ull, 0x7f4606f58b4c654dull, 0x8a7c7adae44c7596ull, 0x01df412fb4cf1a58ull, 0xbb1e8b4a76c917adull, 0xe846335a26932362ull, 0xbfb7dda3298670e4ull, 0x906ac9e45d2c3c99ull, 0x6bb7524c0374f625ull};
static const uint64_t Z4G_136[25] = {0xf24258ea5ad827ffull, 0xf48708d695a17e59ull, 0x7138926567ee5682ull, 0xd95013f2f64ffd5eull, 0x4280422e870e8103ull, 0x0b66fef8ec2e4db3ull, 0x0f1558cf8f3ea3b0ull, 0x7ee1670577b6149bull, 0xa8745069fe0581efull, 0x2ac57d0c79851312ull, 0x2cecdff3d0ed978aull, 0x35b073f4c5a2b66full, 0xe194d6239996195aull, 0xa3a12afdc6c6ac05ull, 0xe742bab5127a767cull, 0xd0366c96ec85683full, 0x534b9221f62754daull, 0xcb811bbaf8e5d4ffull, 0x062d4790b1e3f1f4ull, 0x203c44b03db035fcull, 0xb60041181021f57dull, 0x9db156bed90da731ull, 0xfff6e75ec6b36ff0ull, 0x821851219249cb75ull, 0xdecfeb204601a077ull};
static const uint64_t Z4G_72[25] = {0xde0ee1df7e383cf7ull, 0x431286efc76090efull, 0xb91a731eaf0ab43cull, 0xa876bc4c87495598ull, 0xf72d076fa96d44faull, 0x1c5442342ab54f92ull, 0x2563f3111dcbd34full, 0x427028589731323cull, 0x2b82df843dc8f3a5ull, 0xb765713216bdcd71ull, 0x5c2b0724283ab61cull, 0xd5f5f0088814b69dull, 0xce09bf74a89cae62ull, 0x90aa871f33e0c5e7ull, 0xd7851eb116ff0f26ull, 0xf4f4f9b2eed4d759ull, 0x6f9dcd06a1abd8bbull, 0xb982f3b00b40a3ebull, 0x9839b0a12fdbfbb8ull, 0xa409bd4e8c8f598eull, 0xcc753b1266afdf7full, 0x8343b789c25fc3e6ull, 0x559082e32dbd7f97ull, 0x411337bf4154c1bbull, 0x6be8c67b600b3e88ull};
static const uint64_t OUT4G_168[25] = {0x149257aeae69616bull, 0x8b6fff0e76b62659ull, 0x9b2d3d18b6eae554ull, 0xb6e5174a9253a66eull, 0x55c368a1bc8031f4ull, 0x155f4fd2a779c989ull, 0xf7ccf7d19b2b4cfdull, 0xff353a406b960bd4ull, 0x8ec25d914fe332faull, 0x00f2ca23837cea5bull, 0x92e0db3a7eb5b120ull, 0xb66ae23657328f49ull, 0x530d41132ffe92baull, 0x9857180f09a3fd0full, 0x596e338227d8f962ull, 0x967328357c272c1cull, 0x05f0f0461e8c1529ull, 0x157f18f3cb58aebcull, 0xb613ea95041734f3ull, 0xb14eac9a8e4a6f9cull, 0x2e7540cdbe069565ull, 0xe23f3729fabb5d71ull, 0x9678aedaa6226516ull, 0x68d812b3a3ffbd8bull, 0x4f244b98152c373full};
static const uint64_t OUT4G_136[25] = {0x8a5763b025a63572ull, 0x3b92db8592a04837ull, 0x8e56cd2b26b9b6e1ull, 0x15d7bfa0b20023fcull, 0x7250cca5e9cc9581ull, 0x210faf86f5fe544aull, 0x2fbc2bd70f482671ull, 0x33164ae300d498e5ull, 0x7336289d9f2f1065ull, 0x559962f43316ff3bull, 0x13b48e94d3cc070bull, 0x19cd1aa14e70c79dull, 0x900658997a6907a5ull, 0x3f43561fa0f8e797ull, 0x535855de21c3b9e1ull, 0x708f13b9de770cafull, 0x53aa49c171fd7c56ull, 0xdbf5742d022516a2ull, 0x531a13790f0c15e5ull, 0xc5154906d322bba8ull, 0x92ccb86ae9a2db30ull, 0x01b0b240f6af78e6ull, 0xf55387d7ac0abdd6ull, 0x4ecd3a1b585237d2ull, 0xc482dd28e7825e62ull};
