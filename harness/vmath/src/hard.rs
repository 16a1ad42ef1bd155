//! Written by tools/gen_hard.py: arguments close to multiples of pi/2.
pub const TRIG32: &[u32] = &[
    0x3e000001, 0x3e7fffff, 0x3e800001, 0x3effffff, 0x3f000001, 0x3f7fffff,
    0x3fc90fdb, 0x3fc90fda, 0x3fffffff, 0x40490fda, 0x40000001, 0x407fffff,
    0x4096cbe4, 0x40c90fda, 0x4096cbe5, 0x4116cbe4, 0x416231d6, 0x4116cbe2,
    0x4196cbe4, 0x41e231d6, 0x4196cbe2, 0x4216cbe4, 0x426231d6, 0x421d1462,
    0x4296cbe4, 0x42e231d6, 0x428d5f25, 0x437ce5f1, 0x435732f8, 0x4316cbe4,
    0x43fce5f1, 0x43d732f8, 0x4396cbe4, 0x447ce5f1, 0x4421663a, 0x445732f8,
    0x44fce5f1, 0x44867fdb, 0x44f21957, 0x450be628, 0x4561ff92, 0x45067fdb,
    0x458be628, 0x45d1d93c, 0x4581261f, 0x460be628, 0x4674d2c6, 0x460132b0,
    0x468be628, 0x46f4d2c6, 0x468132b0, 0x474d246f, 0x470be628, 0x4774d2c6,
    0x47cd246f, 0x47dea134, 0x47bba7aa, 0x484d246f, 0x4826f8e7, 0x485ea134,
    0x4882665e, 0x48957c22, 0x48e03a33, 0x4902665e, 0x4943998d, 0x4905985c,
    0x4982665e, 0x49c3998d, 0x4980d2eb, 0x4a2562ae, 0x4a02665e, 0x4a43998d,
    0x4aa562ae, 0x4af81405, 0x4a82665e, 0x4b2562ae, 0x4b781405, 0x4b13e486,
    0x4bf3b47b, 0x4ba562ae, 0x4bf81405, 0x4c2332e9, 0x4c210324, 0x4c7184b6,
    0x4ca332e9, 0x4ca10324, 0x4cf184b6, 0x4d2332e9, 0x4d4b73b2, 0x4d386b30,
    0x4d847661, 0x4d99aea8, 0x4df5e440, 0x4e13d4a5, 0x4e047661, 0x4e0a5064,
    0x4e93d4a5, 0x4e8c2583, 0x4e82a142, 0x4f0ffd14, 0x4f02a142, 0x4f7d9362,
    0x4f8ffd14, 0x4fd7fb9e, 0x4f82a142, 0x500ffd14, 0x507bfae3, 0x5002a142,
    0x50a3e87f, 0x508ffd14, 0x50fbfae3, 0x5123e87f, 0x5147e7c4, 0x513fddd7,
    0x51a3e87f, 0x5195edd3, 0x51f9e1b5, 0x5223e87f, 0x5255e270, 0x522ae5d5,
    0x52a3e87f, 0x52a069d4, 0x52d5e270, 0x5323e87f, 0x5305ad86, 0x53709ebe,
    0x53b146a6, 0x53a3e87f, 0x5385ad86, 0x543146a6, 0x54168a58, 0x5461cf84,
    0x54b146a6, 0x54968a58, 0x54e1cf84, 0x553146a6, 0x5503b90d, 0x5574a0cf,
    0x55b146a6, 0x55a12eed, 0x55d6e93c, 0x56787577, 0x561fd224, 0x563146a6,
    0x569fd224, 0x56efbb36, 0x5682e9cf, 0x571fd224, 0x576fbb36, 0x5702e9cf,
    0x57b82989, 0x57903500, 0x579fd224, 0x58103500, 0x58584f80, 0x581fd224,
    0x58903500, 0x58fc5cc0, 0x5880d069, 0x59103500, 0x597c5cc0, 0x5900d069,
    0x598731b0, 0x59fc5cc0, 0x5980d069, 0x5a02b008, 0x5a7c5cc0, 0x5a00d069,
    0x5a806f34, 0x5afe9d94, 0x5a80b7a6, 0x5b006f34, 0x5b7fbdfe, 0x5b004887,
    0x5b806f34, 0x5bffbdfe, 0x5b804887, 0x5c07bcd0, 0x5c006f34, 0x5c7fbdfe,
    0x5c87bcd0, 0x5ccb9b38, 0x5c806f34, 0x5d07bcd0, 0x5d6d8a6c, 0x5d006f34,
    0x5d87bcd0, 0x5dfe8206, 0x5d806f34, 0x5e07bcd0, 0x5e7e8206, 0x5e006f34,
    0x5e87bcd0, 0x5efe8206, 0x5e832e1d, 0x5f07bcd0, 0x5f7e8206, 0x5f02120c,
    0x5fe4112c, 0x5fdb955f, 0x5f87bcd0, 0x6064112c, 0x60531992, 0x6007bcd0,
    0x60ab0ce1, 0x60e4112c, 0x6091997a, 0x612b0ce1, 0x6164112c, 0x6111997a,
    0x61d3b126, 0x619aacdb, 0x61ab0ce1, 0x6253b126, 0x62127cd8, 0x62742568,
    0x62ec1b4a, 0x62d3b126, 0x62927cd8, 0x636c1b4a, 0x6353b126, 0x630647c6,
    0x63e600c1, 0x63ec1b4a, 0x63dfe638, 0x642e0733, 0x6427ecaa, 0x645fe638,
    0x64ae0733, 0x648befe3, 0x64fbe2ff, 0x652e0733, 0x654a03fa, 0x65120a6c,
    0x65898498, 0x65920a6c, 0x65ff923d, 0x66098498, 0x664e46e4, 0x66120a6c,
    0x66898498, 0x66f0a80a, 0x6681f8e1, 0x67098498, 0x6770a80a, 0x6701f8e1,
    0x67898498, 0x67f0a80a, 0x67873e38, 0x68098498, 0x6870a80a, 0x680269b6,
    0x68898498, 0x68f0a80a, 0x688269b6, 0x6946e3bb, 0x69098498, 0x6970a80a,
    0x69c6e3bb, 0x69d8144e, 0x69b5b328, 0x6a1976f1, 0x6a08465e, 0x6a631ff2,
    0x6a9976f1, 0x6a88465e, 0x6af9d657, 0x6b1976f1, 0x6b302d56, 0x6b02c08c,
    0x6b9976f1, 0x6bf18d9c, 0x6b82c08c, 0x6c55da58, 0x6c1976f1, 0x6c352a35,
    0x6cd5da58, 0x6c8b9d4f, 0x6ce8b0d9, 0x6d2063c2, 0x6d55da58, 0x6d0b9d4f,
    0x6d85a877, 0x6df095a3, 0x6d8aa556, 0x6e05a877, 0x6e7095a3, 0x6e00be19,
    0x6e85a877, 0x6ef095a3, 0x6e8038dc, 0x6f79be45, 0x6f05a877, 0x6f7095a3,
    0x6ff9be45, 0x6f8a3cc8, 0x6fdf02fa, 0x7079be45, 0x700a3cc8, 0x704f5b2c,
    0x70f9be45, 0x708a3cc8, 0x70f1ea5e, 0x7179be45, 0x710a3cc8, 0x7171ea5e,
    0x71f9be45, 0x718582ef, 0x71e876ac, 0x723fa09a, 0x722e5901, 0x726876ac,
    0x72bfa09a, 0x72ae5901, 0x72e876ac, 0x733fa09a, 0x7319edf8, 0x7366e4f4,
    0x73bfa09a, 0x7399edf8, 0x73e6e4f4, 0x7452de59, 0x74661c18, 0x743fa09a,
    0x74d2de59, 0x74ac9512, 0x74e61c18, 0x756fa1dc, 0x750fd18f, 0x75661c18,
    0x75efa1dc, 0x758fd18f, 0x75e61c18, 0x7633b965, 0x766fa1dc, 0x760fd18f,
    0x76a426eb, 0x76d07ce8, 0x76b3b965, 0x77584625, 0x771c5dae, 0x77507ce8,
    0x77d84625, 0x77824e11, 0x77ea8c85, 0x78584625, 0x787255c2, 0x783e3688,
    0x78a8b883, 0x788ea8e6, 0x78edc42a, 0x79407f54, 0x7928b883, 0x790ea8e6,
    0x79c07f54, 0x7990f1b2, 0x79d96a8b, 0x7a105f7f, 0x7a709f29, 0x7a121618,
    0x7a905f7f, 0x7af09f29, 0x7a85e996, 0x7b1675c0, 0x7b105f7f, 0x7b709f29,
    0x7b9675c0, 0x7be1b0a0, 0x7b905f7f, 0x7c1675c0, 0x7c61b0a0, 0x7c089f21,
    0x7c83a708, 0x7cf47f58, 0x7c889f21, 0x7d03a708, 0x7d7de6b4, 0x7d004014,
    0x7d83a708, 0x7dfde6b4, 0x7d804014, 0x7e014d31, 0x7e7de6b4, 0x7e004014,
    0x7ebdcda0, 0x7e814d31, 0x7efde6b4,
];
pub const TRIG64: &[u64] = &[
    0x3fb0000000000001, 0x3fbfffffffffffff, 0x3fc0000000000001, 0x3fcfffffffffffff, 0x3fd0000000000001, 0x3fdfffffffffffff,
    0x3fe0000000000001, 0x3fefffffffffffff, 0x3ff921fb54442d18, 0x3fffffffffffffff, 0x3ff0000000000001, 0x400921fb54442d18,
    0x4000000000000001, 0x400fffffffffffff, 0x4012d97c7f3321d2, 0x401f6a7a2955385e, 0x401fffffffffffff, 0x4022d97c7f3321d2,
    0x402f6a7a2955385e, 0x4020000000000001, 0x4032d97c7f3321d2, 0x403f6a7a2955385e, 0x4031475cc9eedf06, 0x4046c6cbc45dc8de,
    0x4042d97c7f3321d2, 0x404f6a7a2955385e, 0x4056c6cbc45dc8de, 0x4052d97c7f3321d2, 0x405f6a7a2955385e, 0x4066c6cbc45dc8de,
    0x4065cb77f3131f1b, 0x406d0f4a996ed424, 0x4076c6cbc45dc8de, 0x4072a738888a9978, 0x407bfad4cccfe634, 0x4086c6cbc45dc8de,
    0x4082a738888a9978, 0x408bfad4cccfe634, 0x4096c6cbc45dc8de, 0x4090525177794649, 0x409e4fbbdde13963, 0x40a6c6cbc45dc8de,
    0x40a494736ce0536d, 0x40ab7099e6806f3c, 0x40b6c6cbc45dc8de, 0x40b23f8c5bcf003e, 0x40bb5f5289b6805d, 0x40c6c6cbc45dc8de,
    0x40c4832c1016648e, 0x40cec4c2182196d5, 0x40d6c6cbc45dc8de, 0x40d5a4fbea3a16b6, 0x40d06a45db059744, 0x40e67e57cdd4dc54,
    0x40e635e3d74befca, 0x40e021d1e47caaba, 0x40f67e57cdd4dc54, 0x40f635e3d74befca, 0x40f021d1e47caaba, 0x4100dec1da5fa53f,
    0x410c1dedc14a1369, 0x41007213e8924270, 0x41139c6fd67805a7, 0x4110dec1da5fa53f, 0x411c1dedc14a1369, 0x41239c6fd67805a7,
    0x41293c05c9ed3cbc, 0x4124fb46d48435db, 0x4139eb7148f354d6, 0x41339c6fd67805a7, 0x4132ed045771ed8d, 0x4149eb7148f354d6,
    0x4143f42595fb11b4, 0x4142ed045771ed8d, 0x4159eb7148f354d6, 0x4150a0c9fcfbe416, 0x415dee3860f89a8e, 0x416b951f1572eba5,
    0x4169eb7148f354d6, 0x4160a0c9fcfbe416, 0x417b951f1572eba5, 0x4174456bdcf64b08, 0x4175ef19a975e1d7, 0x418b951f1572eba5,
    0x4184456bdcf64b08, 0x418e6821cb71708c, 0x419b951f1572eba5, 0x4194456bdcf64b08, 0x419e6821cb71708c, 0x41ab951f1572eba5,
    0x41a1bcbe615781a7, 0x41ae6821cb71708c, 0x41bb951f1572eba5, 0x41be1dcc9111b506, 0x41b90c7199d42244, 0x41cb951f1572eba5,
    0x41c55202aefde314, 0x41c2c955335f19b3, 0x41d55202aefde314, 0x41dffb04067cd49e, 0x41d2c955335f19b3, 0x41e55202aefde314,
    0x41effb04067cd49e, 0x41e0c6f320c41c58, 0x41f5c9508c58aafa, 0x41f55202aefde314, 0x41fffb04067cd49e, 0x4205c9508c58aafa,
    0x42055202aefde314, 0x420ffb04067cd49e, 0x421de5e5054e921b, 0x4215c9508c58aafa, 0x42103928f1ebce42, 0x42246546a5bd73cc,
    0x4223013cbf223c9e, 0x422c81db1eb35aed, 0x42346546a5bd73cc, 0x423e97e9f89c2db2, 0x4233013cbf223c9e, 0x42446546a5bd73cc,
    0x424e97e9f89c2db2, 0x42419d32d8870570, 0x425bb23eaa3db16d, 0x42546546a5bd73cc, 0x425e97e9f89c2db2, 0x426065c829d68730,
    0x426698ed00ce547a, 0x42646546a5bd73cc, 0x427065c829d68730, 0x427898ac3ec1cac8, 0x4272996e84e767de, 0x428065c829d68730,
    0x428cb21e49376c94, 0x4282996e84e767de, 0x429065c829d68730, 0x429ebed74e723d7a, 0x4290cd9664115bf0, 0x42a065c829d68730,
    0x42afc533d10fa5ed, 0x42a00451fc13d3a0, 0x42b065c829d68730, 0x42bfc533d10fa5ed, 0x42b001138a41fcfa, 0x42c065c829d68730,
    0x42cfc533d10fa5ed, 0x42c001138a41fcfa, 0x42d065c829d68730, 0x42dfc533d10fa5ed, 0x42d07fbbb8653c60, 0x42e7512069b7430d,
    0x42e64ac3e719da9a, 0x42e065c829d68730, 0x42f7512069b7430d, 0x42f64ac3e719da9a, 0x42f065c829d68730, 0x4307512069b7430d,
    0x43013b412ea2182d, 0x4302419db13f80a0, 0x43144630cc2cad9d, 0x4312419db13f80a0, 0x431e6d5c2769d660, 0x4325cba89af1f855,
    0x43244630cc2cad9d, 0x4320bc25e27a35e8, 0x4335cba89af1f855, 0x433508ecb38f52f9, 0x4330bc25e27a35e8, 0x43456a4aa740a5a7,
    0x43405ac7eec8e33a, 0x434ff2d3f62f2118, 0x43559af9a1194efe, 0x43556a4aa740a5a7, 0x43502a18f4f039e3, 0x43659af9a1194efe,
    0x4365399bad67fc50, 0x436fd669841bfa78, 0x437ae9608c734e12, 0x43701be3bbe6a693, 0x43759af9a1194efe, 0x438ae9608c734e12,
    0x4382926837bafcc6, 0x438fd669841bfa78, 0x439c3cfa4749cdd7, 0x439ae9608c734e12, 0x43913ece7ce47d01, 0x43a4d8d546c1ba70,
    0x43a62c6f01983a35, 0x43ad909402204d9c, 0x43b4d8d546c1ba70, 0x43bf453fea2297a8, 0x43b62c6f01983a35, 0x43c4d8d546c1ba70,
    0x43cf453fea2297a8, 0x43c16f7d76bd2658, 0x43d23dba9de98322, 0x43df453fea2297a8, 0x43d16f7d76bd2658, 0x43e0f02d497d677b,
    0x43ef453fea2297a8, 0x43e0a74cb5fb2dac, 0x43fa7f3bc5a7ed9e, 0x43f0f02d497d677b, 0x43ff453fea2297a8, 0x440a7f3bc5a7ed9e,
    0x4400f02d497d677b, 0x440f453fea2297a8, 0x441a7f3bc5a7ed9e, 0x4415d3c0d2e01bb1, 0x4411eb18d59bc8bc, 0x442782b7a20df6d4,
    0x442a7f3bc5a7ed9e, 0x442486337e74000a, 0x443782b7a20df6d4, 0x44306cd6c3cecd57, 0x443f5b6b75d09f49, 0x4441a209b98a791f,
    0x444d63658a917489, 0x44406cd6c3cecd57, 0x4451a209b98a791f, 0x445d63658a917489, 0x44526d57f1c92ec1, 0x4461a209b98a791f,
    0x446d63658a917489, 0x4463204bcb577484, 0x4471a209b98a791f, 0x447d63658a917489, 0x44755181b6b2b5ac, 0x4481a209b98a791f,
    0x448d63658a917489, 0x4480cf95814840b0, 0x4491a209b98a791f, 0x449d63658a917489, 0x4490cf95814840b0, 0x44a308ab84507e83,
    0x44aa4ffb379a019c, 0x44a1a209b98a791f, 0x44b99caa5236feea, 0x44b3bbfc69b38135, 0x44ba4ffb379a019c, 0x44c99caa5236feea,
    0x44c3bbfc69b38135, 0x44c2af03119efd2a, 0x44d99caa5236feea, 0x44d36253f701ffdc, 0x44dd137df282ffca, 0x44e99caa5236feea,
    0x44e36253f701ffdc, 0x44ed137df282ffca, 0x44f99caa5236feea, 0x44f1a6ea26dbff6c, 0x44fa7a5f3a49ff22, 0x450e0664dbedfec5,
    0x4501380fb2d27f50, 0x45099caa5236feea, 0x451e0664dbedfec5, 0x4511380fb2d27f50, 0x4519d4178c3bbef8, 0x452e0664dbedfec5,
    0x4521380fb2d27f50, 0x452e221b78f05ecc, 0x453e0664dbedfec5, 0x4531380fb2d27f50, 0x453e221b78f05ecc, 0x454f19e5d71b26ba,
    0x4540248eb7a5575b, 0x454f359c741d86c1, 0x455f19e5d71b26ba, 0x4550248eb7a5575b, 0x455f359c741d86c1, 0x456f19e5d71b26ba,
    0x4560a073e6babb52, 0x4568f0adda1818fb, 0x457f19e5d71b26ba, 0x4577dd2cdeeaf106, 0x457217ce6c788642, 0x458d4ab7990f194d,
    0x458f19e5d71b26ba, 0x458b7b895b030be0, 0x45966bd5424e5655, 0x45949ca7044248e8, 0x459b7b895b030be0, 0x45a66bd5424e5655,
    0x45a12d35d8e1e76c, 0x45aeeafa86636d5c, 0x45b66bd5424e5655, 0x45b12d35d8e1e76c, 0x45beeafa86636d5c, 0x45c66bd5424e5655,
    0x45c051598e09cf0d, 0x45cfc6d6d13b85bb, 0x45d66bd5424e5655, 0x45d747b18d266eb4, 0x45d58ff8f7763df6, 0x45ec3dc1a597f202,
    0x45e66bd5424e5655, 0x45e175c529dcd307, 0x45fc3dc1a597f202, 0x45f099e8df04baa8, 0x45f8e6dd4e8717fc, 0x460c3dc1a597f202,
    0x460099e8df04baa8, 0x460d0d57864846a6, 0x461e50fec1788957, 0x461c3dc1a597f202, 0x461099e8df04baa8, 0x462e50fec1788957,
    0x462637efca22412c, 0x4620321deeac9056, 0x463e50fec1788957, 0x463637efca22412c, 0x4630321deeac9056, 0x4640a9f3d799b0e1,
    0x464bc5ebbcaad177, 0x4641cd8521a00720, 0x4651ef7d5a008cd1, 0x4650a9f3d799b0e1, 0x465bc5ebbcaad177, 0x466dae3a00451b5f,
    0x46677d794c891d1c, 0x466292421b33fac9, 0x46719e1af966d5d5, 0x467d5cd79fab6463, 0x467036993e9f7434, 0x4681c6cc29b3b153,
    0x46819e1af966d5d5, 0x468d5cd79fab6463, 0x469d99e1681eada0, 0x4691c6cc29b3b153, 0x4697a62a7cd5f89a, 0x46ad99e1681eada0,
    0x46a1db24c1da1f12, 0x46adc292986b891e, 0x46b633690e170238, 0x46bd99e1681eada0, 0x46b1db24c1da1f12, 0x46c2802ce1132c84,
    0x46cd99e1681eada0, 0x46c1db24c1da1f12, 0x46d0a68eca9141aa, 0x46df737f7ea0987a, 0x46d0e39893048ae7, 0x46e0a68eca9141aa,
    0x46ef737f7ea0987a, 0x46e0127a367632c0, 0x46f0a68eca9141aa, 0x46ff737f7ea0987a, 0x46f0127a367632c0, 0x470ae04fdb542be8,
    0x4709f380d013367b, 0x4700a68eca9141aa, 0x471ae04fdb542be8, 0x471906b1c4d2410e, 0x4710a68eca9141aa, 0x4724283be47f20ee,
    0x472ae04fdb542be8, 0x472161cec2bc40a7, 0x4730cc31e9149b71, 0x473e3c59d6beb165, 0x47310a9c9122f070, 0x4740cc31e9149b71,
    0x474e3c59d6beb165, 0x47410a9c9122f070, 0x4750cc31e9149b71, 0x475e3c59d6beb165, 0x47506ecdd5188c6c, 0x47647623428452f0,
    0x4760cc31e9149b71, 0x476e3c59d6beb165, 0x47747623428452f0, 0x477eb134e3c67c68, 0x4770cc31e9149b71, 0x47847623428452f0,
    0x478eb134e3c67c68, 0x4780cc31e9149b71, 0x4791e75eda33c892, 0x479eb134e3c67c68, 0x4790096f7e079e6c, 0x47a09ffca60b8363,
    0x47aff89717eec197, 0x47a0096f7e079e6c, 0x47be7426933f5760, 0x47b09ffca60b8363, 0x47bff89717eec197, 0x47ce7426933f5760,
    0x47c09ffca60b8363, 0x47cff89717eec197, 0x47d6d71cee6f8188, 0x47de7426933f5760, 0x47d09ffca60b8363, 0x47e308981c07969c,
    0x47ee7426933f5760, 0x47e09ffca60b8363, 0x47f12155b2d3a126, 0x47fe7426933f5760, 0x47f09ffca60b8363, 0x48002db47e39a66b,
    0x480f67c7c7d9521b, 0x480007f0ea3c4034, 0x48102db47e39a66b, 0x481f67c7c7d9521b, 0x481007f0ea3c4034, 0x482504cac51f1eaf,
    0x48202db47e39a66b, 0x482f67c7c7d9521b, 0x483504cac51f1eaf, 0x4835f86bf9b9196a, 0x48341129908523f4, 0x484504cac51f1eaf,
    0x4840008060fdd5b2, 0x48441129908523f4, 0x485504cac51f1eaf, 0x4850008060fdd5b2, 0x485800c0917cc08b, 0x486504cac51f1eaf,
    0x486d050af59e0988, 0x486386cfdef04dc1, 0x487504cac51f1eaf, 0x4875c3c838368726, 0x487d050af59e0988, 0x488504cac51f1eaf,
    0x48822326d982c5f5, 0x488d050af59e0988, 0x4898a56c23d2dfe0, 0x48916429666b5d7e, 0x489a163e19a10c3d, 0x48a27c111ade27e8,
    0x48aecec72cc797d8, 0x48a1bd13a7c6bf71, 0x48b27c111ade27e8, 0x48becec72cc797d8, 0x48b1bd13a7c6bf71, 0x48c0f1ba58a0f9ea,
    0x48cecec72cc797d8, 0x48c0e49168405559, 0x48d02c8ef78262eb, 0x48df93f28de62ed7, 0x48d0179df07600d0, 0x48e5ad5a62cb1cc9,
    0x48e4e82f01ac85ca, 0x48e02c8ef78262eb, 0x48f5ad5a62cb1cc9, 0x48f4e82f01ac85ca, 0x48ff5c468282c8af, 0x4905ad5a62cb1cc9,
    0x490010b8f1d0afd7, 0x4900d5e452ef46d6, 0x4915ad5a62cb1cc9, 0x4912df09aa4de650, 0x4910d5e452ef46d6, 0x492f1cdf37f20ff1,
    0x4925ad5a62cb1cc9, 0x4922df09aa4de650, 0x493a651ccd5e965d, 0x4932df09aa4de650, 0x493c4e8e7f74d978, 0x494a651ccd5e965d,
    0x4940832875042986, 0x494eaa6fb4be9642, 0x495b930d680374c2, 0x495a651ccd5e965d, 0x4950832875042986, 0x496b930d680374c2,
    0x4969372c32b9b7f8, 0x4960832875042986, 0x497b930d680374c2, 0x4972e961260b49fa, 0x497f84f73f6825f6, 0x498b930d680374c2,
    0x4982e961260b49fa, 0x498f84f73f6825f6, 0x499b930d680374c2, 0x4990f06c3a58f160, 0x499968a257856a10, 0x49a205a1c297f6b9,
    0x49ab930d680374c2, 0x49a0f06c3a58f160, 0x49b205a1c297f6b9, 0x49bfcf287699b11a, 0x49b0f06c3a58f160, 0x49c205a1c297f6b9,
    0x49c0f69afef267a3, 0x49c0f06c3a58f160, 0x49d17e1e60c52f2e, 0x49d068e8d88629d5, 0x49dfc2caed66c494, 0x49e17e1e60c52f2e,
    0x49ea3d2d9127c6c5, 0x49e068e8d88629d5, 0x49f17e1e60c52f2e, 0x49fa3d2d9127c6c5, 0x49f28d25246abe44, 0x4a082f4a9d83d2c2,
    0x4a017e1e60c52f2e, 0x4a0a3d2d9127c6c5, 0x4a182f4a9d83d2c2, 0x4a117e1e60c52f2e, 0x4a1a3d2d9127c6c5, 0x4a2682ff8e5429dd,
    0x4a24d6b47f2480f8, 0x4a2f420ebeb6c174, 0x4a3682ff8e5429dd, 0x4a34d6b47f2480f8, 0x4a3f420ebeb6c174, 0x4a4682ff8e5429dd,
    0x4a423bddef3ff0d9, 0x4a4f420ebeb6c174, 0x4a5682ff8e5429dd, 0x4a591dd61e38b9fc, 0x4a53e828fe6f99be, 0x4a6cca7515e2585c,
    0x4a62d66096aa8b7d, 0x4a6f654ba5c6e87b, 0x4a7cca7515e2585c, 0x4a72d66096aa8b7d, 0x4a7f654ba5c6e87b, 0x4a8597d7d069c245,
    0x4a8cca7515e2585c, 0x4a82d66096aa8b7d, 0x4a9c54e136ed2490, 0x4a952243f1748e79, 0x4a9597d7d069c245, 0x4aac54e136ed2490,
    0x4aa4e77a01f9f493, 0x4aabdf4d57f7f0c4, 0x4ab53fa8e931db6c, 0x4abc54e136ed2490, 0x4ab4e77a01f9f493, 0x4ac1b50cc25436da,
    0x4acfdf7d5dcac922, 0x4ac12213eba1b61b, 0x4ad1b50cc25436da, 0x4adfdf7d5dcac922, 0x4ad08f1b14ef355c, 0x4aed28d5c4c5e73b,
    0x4ae1b50cc25436da, 0x4aefdf7d5dcac922, 0x4afd28d5c4c5e73b, 0x4afeee23d834b984, 0x4afb6387b15714f2, 0x4b0d28d5c4c5e73b,
    0x4b07329ae2278b23, 0x4b0eee23d834b984, 0x4b12722f5d698ace, 0x4b156d4cceb8b8da, 0x4b17329ae2278b23, 0x4b22722f5d698ace,
    0x4b2bab470c1e5035, 0x4b206521ef337d42, 0x4b32722f5d698ace, 0x4b3bab470c1e5035, 0x4b306521ef337d42, 0x4b42722f5d698ace,
    0x4b4bab470c1e5035, 0x4b43efbe161121d4, 0x4b50539b48d14c55, 0x4b52722f5d698ace, 0x4b5bab470c1e5035, 0x4b60539b48d14c55,
    0x4b698cb2f78611bc, 0x4b61c24901475153, 0x4b70539b48d14c55, 0x4b73298639a48d4d, 0x4b7fefdfb567962b, 0x4b80539b48d14c55,
    0x4b86b6c806b2d0c4, 0x4b83e0dd15df8fcc, 0x4b90539b48d14c55, 0x4b91091605061c93, 0x4b9c647a085f84f5, 0x4bab5441ee104c98,
    0x4ba6014d4a7e0086, 0x4ba54bd28e493048, 0x4bbb5441ee104c98, 0x4bb6014d4a7e0086, 0x4bb2a2583c800a3f, 0x4bc47f31728c3972,
    0x4bcb5441ee104c98, 0x4bc0ae58a6ebb474, 0x4bd114a934ca2fdf, 0x4bdebeca2bd2562b, 0x4bd0973247638ddc, 0x4bebb4c8e40cbe5d,
    0x4be84a40a64ab4ca, 0x4be114a934ca2fdf, 0x4bf84a40a64ab4ca, 0x4bf114a934ca2fdf, 0x4bfebeca2bd2562b, 0x4c03ecf49b990c61,
    0x4c084a40a64ab4ca, 0x4c07577cd95b15f4, 0x4c10090a775f3363, 0x4c137392b5213cf6, 0x4c1f1f5121cec7f0, 0x4c21faff897c1fe2,
    0x4c20090a775f3363, 0x4c21819da3045077, 0x4c31faff897c1fe2, 0x4c3af87f4e3a2fd3, 0x4c3522a017e36a56, 0x4c4e7e44a78ac18c,
    0x4c41faff897c1fe2, 0x4c4af87f4e3a2fd3, 0x4c5e7e44a78ac18c, 0x4c51faff897c1fe2, 0x4c5af87f4e3a2fd3, 0x4c66deb37da81129,
    0x4c6e7e44a78ac18c, 0x4c60672f42487aa8, 0x4c76deb37da81129, 0x4c7e7e44a78ac18c, 0x4c70672f42487aa8, 0x4c86deb37da81129,
    0x4c8e7e44a78ac18c, 0x4c809d10eea0c054, 0x4c96deb37da81129, 0x4c9e7e44a78ac18c, 0x4c91aa40185050b4, 0x4ca6deb37da81129,
    0x4cae7e44a78ac18c, 0x4ca1aa40185050b4, 0x4cb6deb37da81129, 0x4cbe7e44a78ac18c, 0x4cb031656b9ef4a5, 0x4ccb6ae968f21762,
    0x4cc3cb583f0f66ff, 0x4cc6deb37da81129, 0x4cdb6ae968f21762, 0x4cd241aa9fc311ea, 0x4cde6d71b4efc886, 0x4ceb6ae968f21762,
    0x4ce241aa9fc311ea, 0x4cee6d71b4efc886, 0x4cfb6ae968f21762, 0x4cf0c06679c43958, 0x4cf92099b6a65604, 0x4d01e58e52ea1a07,
    0x4d0b6ae968f21762, 0x4d00c06679c43958, 0x4d11e58e52ea1a07, 0x4d1f9b03076325b8, 0x4d10c06679c43958, 0x4d21e58e52ea1a07,
    0x4d27b442458a5c4a, 0x4d2f9b03076325b8, 0x4d31e58e52ea1a07, 0x4d33c0e1e49df793, 0x4d3f9b03076325b8, 0x4d4cd205acd55966,
    0x4d45d8eeb3d67ebe, 0x4d44eb44eafc8ff8, 0x4d5cd205acd55966, 0x4d55d8eeb3d67ebe, 0x4d516eb96e7d22a4, 0x4d6b13bfee95a2bc,
    0x4d69557a3055ec12, 0x4d616eb96e7d22a4, 0x4d7b13bfee95a2bc, 0x4d79557a3055ec12, 0x4d708f968f5d474f, 0x4d844ecff2f03a0d,
    0x4d8b13bfee95a2bc, 0x4d81b1675590a80e, 0x4d9741b6813300ba, 0x4d907cc6858d980b, 0x4d944ecff2f03a0d, 0x4da741b6813300ba,
    0x4da36fad13d05eb8, 0x4dad27839db88e14, 0x4db741b6813300ba, 0x4db101b7715652e1, 0x4dbf9579403299eb, 0x4dc741b6813300ba,
    0x4dc51639549d524e, 0x4dcc1da1c6271868, 0x4dd741b6813300ba, 0x4dd192851bd86f41, 0x4ddfa155feebfb75, 0x4de33322fd48b212,
    0x4de741b6813300ba, 0x4de6b6d7360d951f, 0x4df33322fd48b212, 0x4dfcccb47bed0b1b, 0x4df03a4e0fa93aa0, 0x4e033322fd48b212,
    0x4e0cccb47bed0b1b, 0x4e003a4e0fa93aa0, 0x4e133322fd48b212, 0x4e1cccb47bed0b1b, 0x4e103a4e0fa93aa0, 0x4e233322fd48b212,
    0x4e2cccb47bed0b1b, 0x4e2436c7de4345bc, 0x4e3a86c4b863474e, 0x4e333322fd48b212, 0x4e3cccb47bed0b1b, 0x4e4a86c4b863474e,
    0x4e433322fd48b212, 0x4e4cccb47bed0b1b, 0x4e5a86c4b863474e, 0x4e56dcf3dad5fcb0, 0x4e507c2be4fbcfc7, 0x4e62fa9f52e722d3,
    0x4e6a86c4b863474e, 0x4e6125b6e4207d84, 0x4e72fa9f52e722d3, 0x4e701f00d78c633d, 0x4e7125b6e4207d84, 0x4e82fa9f52e722d3,
    0x4e818cd01539c308, 0x4e8125b6e4207d84, 0x4e9bc1075d840457, 0x4e918cd01539c308, 0x4e9a53381fd6a48c, 0x4eabc1075d840457,
    0x4ea18cd01539c308, 0x4eaeb66c2525154e, 0x4ebdf2a1602b3cb8, 0x4eb18cd01539c308, 0x4ebeb66c2525154e, 0x4ecdf2a1602b3cb8,
    0x4ec18cd01539c308, 0x4eceb66c2525154e, 0x4ed675f908206d8a, 0x4eddf2a1602b3cb8, 0x4ed18cd01539c308, 0x4ee2b7a4dc1b05f3,
    0x4eedf2a1602b3cb8, 0x4ee18cd01539c308, 0x4ef5af9bf37155ef, 0x4ef1f147c76bee58, 0x4ef2b7a4dc1b05f3, 0x4f05af9bf37155ef,
    0x4f01f147c76bee58, 0x4f0ae9ebab21e584, 0x4f1a2bede54c5185, 0x4f15af9bf37155ef, 0x4f11f147c76bee58, 0x4f2a2bede54c5185,
    0x4f27edc4ec5ed3ba, 0x4f21f147c76bee58, 0x4f3a2bede54c5185, 0x4f37edc4ec5ed3ba, 0x4f31f147c76bee58, 0x4f4311682dbdddb1,
    0x4f454f9126ab5b7c, 0x4f4c6a16de39cf50, 0x4f569eab0985179b, 0x4f5311682dbdddb1, 0x4f51c24e4ae42192, 0x4f669eab0985179b,
    0x4f64d8099ba17aa6, 0x4f61c24e4ae42192, 0x4f769eab0985179b, 0x4f74d8099ba17aa6, 0x4f7f440e697237f9, 0x4f869eab0985179b,
    0x4f808557ebaaea77, 0x4f824bf9598e876c, 0x4f969eab0985179b, 0x4f9392017a980109, 0x4f924bf9598e876c, 0x4fa51856420e8c52,
    0x4fa0c5a49217fc23, 0x4fae7e9f9542e1b4, 0x4fb51856420e8c52, 0x4fbfa4816315d27b, 0x4fb0c5a49217fc23, 0x4fcb2196364d750b,
    0x4fc0956b15462ee2, 0x4fc51856420e8c52, 0x4fdb2196364d750b, 0x4fd0956b15462ee2, 0x4fd8e0209fe94653, 0x4feb2196364d750b,
    0x4fe1b625e078463e, 0x4fe2d6e0abaa5d9a, 0x4ffb2196364d750b, 0x4ff1b625e078463e, 0x4ffa9138d0b4695d, 0x500b2196364d750b,
    0x5001fe549344cc15, 0x50024683461151ec, 0x50168ff564c92090, 0x50124683461151ec, 0x501ffb65ba9e4f5d, 0x50268ff564c92090,
    0x50224683461151ec, 0x502ffb65ba9e4f5d, 0x5030ebf80b96d86c, 0x503c33f2bdfb68b4, 0x50324683461151ec, 0x5040ebf80b96d86c,
    0x504f05f16a948cc6, 0x50417c55712fe41a, 0x5050ebf80b96d86c, 0x505f05f16a948cc6, 0x50503e86bdbdb200, 0x50698d4578b193d2,
    0x5060ebf80b96d86c, 0x506f05f16a948cc6, 0x50798d4578b193d2, 0x5070ebf80b96d86c, 0x507f05f16a948cc6, 0x5083de73c5ab77e2,
    0x50898d4578b193d2, 0x508547731bf809eb, 0x5093de73c5ab77e2, 0x509dcdada88133d3, 0x50910c75191253d0, 0x50a54a28326cfede,
    0x50a6b5dc9f2e85da, 0x50a3de73c5ab77e2, 0x50b54a28326cfede, 0x50bfef3c4ba37e4d, 0x50b0569ae2b19052, 0x50c54a28326cfede,
    0x50cfef3c4ba37e4d, 0x50c0569ae2b19052, 0x50daca28cca06f75, 0x50d02514b369f006, 0x50d54a28326cfede, 0x50eaca28cca06f75,
    0x50e02514b369f006, 0x50e8379f0d1ee809, 0x50f16e59932ab3bc, 0x50f2b79e72eb7772, 0x50f02514b369f006, 0x51016e59932ab3bc,
    0x510a25865cc00d9a, 0x510013dcece98e63, 0x51116e59932ab3bc, 0x511e811cc18aba89, 0x511013dcece98e63, 0x51216e59932ab3bc,
    0x512e811cc18aba89, 0x512180c6e856b3c3, 0x5130809c95f020f7, 0x51316e59932ab3bc, 0x513e811cc18aba89, 0x5140809c95f020f7,
    0x5144dc32fabacde6, 0x514f4a4c781834d9, 0x5150809c95f020f7, 0x515aeeb6134d87ea, 0x5152378949b82e0c, 0x5160809c95f020f7,
    0x516df7f79f96e4ec, 0x5160b2e883937f8b, 0x5177fe9a7dd5da32, 0x5170809c95f020f7, 0x517679f9b7b12bb1, 0x5187fe9a7dd5da32,
    0x5182053d5c14cf78, 0x518f892b61246b12, 0x5197fe9a7dd5da32, 0x5192053d5c14cf78, 0x519f892b61246b12, 0x51af1e94f30c9db6,
    0x51a31f47b421b09d, 0x51a7fe9a7dd5da32, 0x51bf1e94f30c9db6, 0x51b1cff22508e8ca, 0x51bc7fe9d4db0e10, 0x51cf1e94f30c9db6,
    0x51c007f387bb37e9, 0x51ce47e87228bef1, 0x51df1e94f30c9db6, 0x51d1574916d3ffbc, 0x51da02eda23dff9a, 0x51e3e51cbf3b4eca,
    0x51ef1e94f30c9db6, 0x51e1574916d3ffbc, 0x51f3e51cbf3b4eca, 0x51fdd7ab1ed8f62f, 0x51f0d6344db9f662, 0x5206b37acc2fa285,
    0x5203e51cbf3b4eca, 0x520dd7ab1ed8f62f, 0x5210530495e6a4f5, 0x52132162a2daf8b0, 0x521fe24f0f6cf3d0, 0x5223833fb10b23bd,
    0x5220530495e6a4f5, 0x52232162a2daf8b0, 0x5233833fb10b23bd, 0x5231eb222378e459, 0x523189451548b94c, 0x5242b730ea42040b,
    0x5240bd364e7f999a, 0x524fe24f0f6cf3d0, 0x5252b730ea42040b, 0x5250572eeb1b09c1, 0x525fe24f0f6cf3d0, 0x526c45cd11154dfd,
    0x52631d384da693e4, 0x526cabd47479ddd6, 0x527c45cd11154dfd, 0x52731d384da693e4, 0x527cabd47479ddd6, 0x528c45cd11154dfd,
    0x5280868d923f797b, 0x52877e7efdaba904, 0x529c45cd11154dfd, 0x5296662d51aa63bc, 0x52919edf3e40bec3, 0x52ac45cd11154dfd,
    0x52a6662d51aa63bc, 0x52a19edf3e40bec3, 0x52bc45cd11154dfd, 0x52b0cca1fd3fcacd, 0x52bbffb8a614fcab, 0x52c0efac32bff376,
    0x52c6ac41bcaab50e, 0x52c0cca1fd3fcacd, 0x52d0efac32bff376, 0x52d967824c1fed31, 0x52d135c09dc044c8, 0x52e0efac32bff376,
    0x52e967824c1fed31, 0x52e135c09dc044c8, 0x52f1a73ee3fd4ba9, 0x52f0efac32bff376, 0x52f967824c1fed31, 0x530eb6c962abee5b,
    0x530a1f14fd5d4564, 0x53025ed1953aa3dc, 0x5313974fbe05f40b, 0x531a1f14fd5d4564, 0x53125ed1953aa3dc, 0x53229f4751019fda,
    0x5323974fbe05f40b, 0x532a1f14fd5d4564, 0x53329f4751019fda, 0x533beeeaf9826fc7, 0x5333974fbe05f40b, 0x534a8afbc4edb07d,
    0x53413b581c6ce090, 0x53429f4751019fda, 0x53513b581c6ce090, 0x5359d9042aa350d8, 0x5350af3676f8f778, 0x53613b581c6ce090,
    0x536e27da31be88fc, 0x5360af3676f8f778, 0x53713b581c6ce090, 0x537e27da31be88fc, 0x5370af3676f8f778, 0x538027a29aa61287,
    0x538f3b8fb3855705, 0x5380af3676f8f778, 0x53944599ae031379, 0x539027a29aa61287, 0x539f3b8fb3855705, 0x53a44599ae031379,
    0x53a5594f2fc9e182, 0x53a331e42c3c4570, 0x53b44599ae031379, 0x53bef24145e8043a, 0x53b331e42c3c4570, 0x53c44599ae031379,
    0x53c1df5d287b8acb, 0x53c0cba7a6b4bcc2, 0x53d3127b6b3f4f22, 0x53d0cba7a6b4bcc2, 0x53df3112c7e1f0d6, 0x53e3127b6b3f4f22,
    0x53ec9bb920def6b3, 0x53e0cba7a6b4bcc2, 0x53f870a967710516, 0x53f3127b6b3f4f22, 0x53fc9bb920def6b3, 0x540870a967710516,
    0x5403127b6b3f4f22, 0x540c9bb920def6b3, 0x5417191de8649799, 0x541870a967710516, 0x5415c19269582a1c, 0x5421a8b94e0e8d12,
    0x5420512dcf021f95, 0x542b31f703ae34a3, 0x5431a8b94e0e8d12, 0x543a7d15f515d39b, 0x5430512dcf021f95, 0x5448cb19eebd359a,
    0x544fed7a8f6bde22, 0x5441a8b94e0e8d12, 0x5458cb19eebd359a, 0x5451d5f191b4a554, 0x545c898282baa220, 0x546a93b216e8dfbc,
    0x5468cb19eebd359a, 0x54600d596988fb32, 0x547a93b216e8dfbc, 0x5478cb19eebd359a, 0x54700d596988fb32, 0x5483eec5912ea7cd,
    0x548a93b216e8dfbc, 0x548141e154ed289a, 0x5493eec5912ea7cd, 0x549a93b216e8dfbc, 0x549141e154ed289a, 0x54a3eec5912ea7cd,
    0x54aa93b216e8dfbc, 0x54a30a797d18d2bc, 0x54b3eec5912ea7cd, 0x54ba93b216e8dfbc, 0x54b11b505780a2ed, 0x54c376320791a6fd,
    0x54c9a28b03aede1c, 0x54c3eec5912ea7cd, 0x54d9ded4c87d5e84, 0x54d376320791a6fd, 0x54d339e842c32695, 0x54e9ded4c87d5e84,
    0x54e39456e9f8e731, 0x54e339e842c32695, 0x54f3671f965e06e3, 0x54f9ded4c87d5e84, 0x54f0039846da1ba0, 0x5503671f965e06e3,
    0x5509ded4c87d5e84, 0x5500039846da1ba0, 0x5513671f965e06e3, 0x5519ded4c87d5e84, 0x55103e1c0acee333, 0x5521cb1497fca4fe,
    0x5523671f965e06e3, 0x5529ded4c87d5e84, 0x5531cb1497fca4fe, 0x553ab09ee3faf77d, 0x5533671f965e06e3, 0x554979b4570b7a0e,
    0x5541cb1497fca4fe, 0x554ab09ee3faf77d, 0x555979b4570b7a0e, 0x5551cb1497fca4fe, 0x555ab09ee3faf77d, 0x556979b4570b7a0e,
    0x5565a26477840f86, 0x556148e76de15f64, 0x557979b4570b7a0e, 0x55778e0c6747c4ca, 0x5570531375ff84c2, 0x5588feca5b1a8cbd,
    0x558979b4570b7a0e, 0x558883e05f299f6c, 0x5592ddd2435024e2, 0x559262e8475f3791, 0x559ea4d876f40747, 0x55a2ddd2435024e2,
    0x55ac4cbb64f83753, 0x55a262e8475f3791, 0x55b2ddd2435024e2, 0x55bc4cbb64f83753, 0x55b757d1d62bb772, 0x55c2ddd2435024e2,
    0x55cc4cbb64f83753, 0x55c373d987cf18df, 0x55d98742fb527d64, 0x55d2ddd2435024e2, 0x55dc4cbb64f83753, 0x55e98742fb527d64,
    0x55e2ddd2435024e2, 0x55ec4cbb64f83753, 0x55f325723c7dde0b, 0x55ffe913ba271cbd, 0x55f24e9250f4b290, 0x5604abfe6de79797,
    0x560c945b5e25f07c, 0x560325723c7dde0b, 0x5614abfe6de79797, 0x56156f44869c745d, 0x561c945b5e25f07c, 0x562bd115457113b6,
    0x56244a5b618d2934, 0x562b0dcf2cbc36f0, 0x56314a44885010b9, 0x563bd115457113b6, 0x5630e8a17bf5a256, 0x564f32cf2b089a94,
    0x5640e8a17bf5a256, 0x564e6f891253bdce, 0x5657661b604673ef, 0x565f32cf2b089a94, 0x5650e8a17bf5a256, 0x5664582ff44b4254,
    0x566916f85312375e, 0x5667661b604673ef, 0x5674582ff44b4254, 0x567e8447ee70e37e, 0x56709bbd4bb859a3, 0x5684582ff44b4254,
    0x568e8447ee70e37e, 0x56809bbd4bb859a3, 0x5694582ff44b4254, 0x569e8447ee70e37e, 0x5692a5986f27bbc1, 0x56a8c091fdf23d65,
    0x56a4582ff44b4254, 0x56ae8447ee70e37e, 0x56b8c091fdf23d65, 0x56bdd69dfb050dfa, 0x56b3aa8600df6cd0, 0x56c3d5f07dba6231,
    0x56c3aa8600df6cd0, 0x56cd7fc9014f2338, 0x56d64b413dd64fcb, 0x56d3d5f07dba6231, 0x56d1353540c37f36, 0x56e64b413dd64fcb,
    0x56e51098ddc858fe, 0x56e1353540c37f36, 0x56f51098ddc858fe, 0x56ff98e54cac857d, 0x56f1353540c37f36, 0x570069c6d65d3e25,
    0x57051098ddc858fe, 0x570f98e54cac857d, 0x571de2d078fdf377, 0x571af21345416aa4, 0x5711a46f366b34f2, 0x572de2d078fdf377,
    0x5724358e73f10ffb, 0x572af21345416aa4, 0x57324faaa5272710, 0x5737264ba7ad98ce, 0x5734358e73f10ffb, 0x57424faaa5272710,
    0x574b777ff7baba98, 0x5740ef3388d68e19, 0x57524faaa5272710, 0x575b777ff7baba98, 0x5750ef3388d68e19, 0x576005b55082422e,
    0x576dc1754c5f9f7a, 0x576006ce70125a8f, 0x577005b55082422e, 0x577ee66ff6b211eb, 0x577006ce70125a8f, 0x578005b55082422e,
    0x578ee66ff6b211eb, 0x5780925bea3a1396, 0x5790e9c81b67ad02, 0x579005b55082422e, 0x579ee66ff6b211eb, 0x57a0e9c81b67ad02,
    0x57a95eac291b8383, 0x57a005b55082422e, 0x57be2b9b851ea7fc, 0x57b0e9c81b67ad02, 0x57b95eac291b8383, 0x57ce2b9b851ea7fc,
    0x57c0e9c81b67ad02, 0x57c95eac291b8383, 0x57d6a0b4a3d6fdfd, 0x57de2b9b851ea7fc, 0x57d073cd1f9b2124, 0x57e715b33a0d143e,
    0x57ef1598b18ad47e, 0x57e6a0b4a3d6fdfd, 0x57f715b33a0d143e, 0x57f3ffbdaaba60a0, 0x57ffff95ddf70100, 0x580715b33a0d143e,
    0x5801ffc44cdaf090, 0x580fff95ddf70100, 0x581815afe8fccc46, 0x581915ac97ec844e, 0x581715b33a0d143e, 0x582815afe8fccc46,
    0x58207fc946735c84, 0x582fff95ddf70100, 0x583815afe8fccc46, 0x58303fca1ab76e82, 0x583fff95ddf70100, 0x584835af7edac347,
    0x584815afe8fccc46, 0x58401fca84d97781, 0x58522043b9ac94b5, 0x585240434f8a8bb6, 0x585e6b1ad9e6e8da, 0x58622043b9ac94b5,
    0x586240434f8a8bb6, 0x586e6b1ad9e6e8da, 0x587cb5c087ce6ab4, 0x58722043b9ac94b5, 0x58752af99c43abfe, 0x588cb5c087ce6ab4,
    0x5882daf14cdadcc7, 0x588e2b1bae2afad8, 0x5895885065dad007, 0x589cb5c087ce6ab4, 0x5892daf14cdadcc7, 0x58ab01ba31b74d0b,
    0x58a5885065dad007, 0x58acb5c087ce6ab4, 0x58b1179529d573dc, 0x58b3d44a0fc3b25e, 0x58bdbe6f17a58b8d, 0x58c1179529d573dc,
    0x58c9a35fbec02dca, 0x58c06c3d6395770c, 0x58d1179529d573dc, 0x58dde94509358ac1, 0x58d06c3d6395770c, 0x58e82f9a53010eef,
    0x58e3e9b5088bb1f8, 0x58e1179529d573dc, 0x58f82f9a53010eef, 0x58f3e9b5088bb1f8, 0x58fdde8f8cd18af4, 0x590d2a079523fb6d,
    0x59082f9a53010eef, 0x5903e9b5088bb1f8, 0x591d2a079523fb6d, 0x591aacd0f412852e, 0x59116c7e677a3bb9, 0x592aacd0f412852e,
    0x59216c7e677a3bb9, 0x592dde8f8cd18af4, 0x5935403807969f02, 0x593aacd0f412852e, 0x5937bd6ea8a81541, 0x5945403807969f02,
    0x594fe0540b61ee83, 0x594045cac573b284, 0x5955403807969f02, 0x595fe0540b61ee83, 0x595045cac573b284, 0x59609dbd23407407,
    0x5965403807969f02, 0x596fe0540b61ee83, 0x597e3ca9b6c655cb, 0x59709dbd23407407, 0x597b3dd9270bc388, 0x598e3ca9b6c655cb,
    0x59876d336d0364e9, 0x59846e62dd48d2a6, 0x599e3ca9b6c655cb, 0x599ad4ee91e4dd5a, 0x599106a7b8675a35, 0x59ae3ca9b6c655cb,
    0x59aad4ee91e4dd5a, 0x59a106a7b8675a35, 0x59b5d3907fdc623c, 0x59b0d2326dd3e71e, 0x59b93b4ba4bddaad, 0x59c5d3907fdc623c,
    0x59c0d2326dd3e71e, 0x59c93b4ba4bddaad, 0x59d05eac5fe549ad, 0x59db48749fd37acb, 0x59d1b93e89b12200, 0x59ecc28f2b4ce84b,
    0x59e05eac5fe549ad, 0x59eb48749fd37acb, 0x59f11bb9a5a2006d, 0x59f74dab0b55cfbc, 0x59f05eac5fe549ad, 0x5a011bb9a5a2006d,
    0x5a017a4048805bcd, 0x5a0d2115ce2b43ab, 0x5a1c934bd9ddba9b, 0x5a16ef246877745c, 0x5a10ec765432d2bd, 0x5a2c934bd9ddba9b,
    0x5a21335b4e599745, 0x5a2caaed82955173, 0x5a31278a79fdcbd9, 0x5a36d782bfbfdd84, 0x5a31335b4e599745, 0x5a46dd6b29edc33a,
    0x5a41278a79fdcbd9, 0x5a4121a20fcfe623, 0x5a56dd6b29edc33a, 0x5a512a7eaf14beb4, 0x5a5121a20fcfe623, 0x5a66dd6b29edc33a,
    0x5a612a7eaf14beb4, 0x5a6f7892eba6084a, 0x5a76dd6b29edc33a, 0x5a712a7eaf14beb4, 0x5a7f7892eba6084a, 0x5a86dd6b29edc33a,
    0x5a834b603554ea42, 0x5a89b9d59c713858, 0x5a9a14a5dd7bea45, 0x5a9d4be0910a1150, 0x5a96dd6b29edc33a, 0x5aa5f8e86cc78cfc,
    0x5aad4be0910a1150, 0x5aa06ef5c2d17524, 0x5ab24f6c5aa64ad2, 0x5abd4be0910a1150, 0x5ab011314cafd05c, 0x5ac07aae5195a9bd,
    0x5acf209e9a1ab265, 0x5ac011314cafd05c, 0x5ad372ec0e7828ec, 0x5ad19e2e056787d7, 0x5ad07aae5195a9bd, 0x5ae372ec0e7828ec,
    0x5aed2c6215b43d62, 0x5ae7ae27fa825a23, 0x5af372ec0e7828ec, 0x5afd2c6215b43d62, 0x5af22feddf5076e4, 0x5b0372ec0e7828ec,
    0x5b0d2c6215b43d62, 0x5b00abef6209c251, 0x5b1372ec0e7828ec, 0x5b1d2c6215b43d62, 0x5b13222c82ae3c6a, 0x5b229cbcece25382,
    0x5b2b8003d288928e, 0x5b2372ec0e7828ec, 0x5b329cbcece25382, 0x5b3beb1b63537d43, 0x5b31c68dcb4c7e18, 0x5b44d58ea64be345,
    0x5b470e605fb57308, 0x5b429cbcece25382, 0x5b5a9926be394007, 0x5b54d58ea64be345, 0x5b514ac847c81646, 0x5b6a9926be394007,
    0x5b67b75ab24291a6, 0x5b614ac847c81646, 0x5b7a9926be394007, 0x5b77b75ab24291a6, 0x5b714ac847c81646, 0x5b833a6a0bad446d,
    0x5b861c3617a3f2ce, 0x5b8d7af2ca2fee68, 0x5b96e9c864f3423a, 0x5b933a6a0bad446d, 0x5b926cd7be5df501, 0x5ba6e9c864f3423a,
    0x5ba750918b9ae9f0, 0x5baf161764ce8d40, 0x5bb6e9c864f3423a, 0x5bb36dce9f011848, 0x5bbf161764ce8d40, 0x5bc8db29db402b0e,
    0x5bcacc8b518d13e2, 0x5bc6e9c864f3423a, 0x5bd8db29db402b0e, 0x5bd083bc6d8dbb0a, 0x5bdf161764ce8d40, 0x5be9578238d36543,
    0x5be8db29db402b0e, 0x5be007640ffa80d5, 0x5bf2e28b9339bd65, 0x5bf35ee3f0ccf79a, 0x5bf9d3da96669f78, 0x5c02e28b9339bd65,
    0x5c0024689e0023ab, 0x5c0d0e55e9337367, 0x5c1df10f063d060f, 0x5c161d06e6069154, 0x5c177c1860a35e31, 0x5c2095c52c84ecff,
    0x5c2ba4489f8835a9, 0x5c20196ccef1b2ca, 0x5c31bc285fdf5532, 0x5c3095c52c84ecff, 0x5c3ba4489f8835a9, 0x5c41bc285fdf5532,
    0x5c4a9a3c8fceffcb, 0x5c4095c52c84ecff, 0x5c51bc285fdf5532, 0x5c5a9a3c8fceffcb, 0x5c559800de29f665, 0x5c69c487f2337e3a,
    0x5c60e673c243d3a1, 0x5c61bc285fdf5532, 0x5c79c487f2337e3a, 0x5c7010bf24a85210, 0x5c7c1d4e80268f9c, 0x5c89c487f2337e3a,
    0x5c8010bf24a85210, 0x5c8e1f6664bb99de, 0x5c9ac593e47e035b, 0x5c99c487f2337e3a, 0x5c9010bf24a85210, 0x5caac593e47e035b,
    0x5ca3d3ebeecbe13c, 0x5ca4d4f7e116665d, 0x5cbac593e47e035b, 0x5cb3d3ebeecbe13c, 0x5cbdbde1e631d1da, 0x5ccfba8ee030fbaa,
    0x5cc3d3ebeecbe13c, 0x5ccdbde1e631d1da, 0x5cdfba8ee030fbaa, 0x5cd3d3ebeecbe13c, 0x5cddbde1e631d1da, 0x5cea4668a5fe38e7,
    0x5ce4d2426bcb7624, 0x5cef3b63a1b13136, 0x5cff7af940f11670, 0x5cf4d2426bcb7624, 0x5cff3b63a1b13136, 0x5d0f7af940f11670,
    0x5d04d2426bcb7624, 0x5d0f3b63a1b13136, 0x5d179c3af0b4d0d4, 0x5d1f7af940f11670, 0x5d14d2426bcb7624, 0x5d23acdbc896ae06,
    0x5d2f7af940f11670, 0x5d208382d4cd7b7f, 0x5d31b52c34879c9f, 0x5d3f7af940f11670, 0x5d308382d4cd7b7f, 0x5d41b52c34879c9f,
    0x5d4f7af940f11670, 0x5d4030652272fcaa, 0x5d51888cac3906f4, 0x5d5f21ba3053eb1a, 0x5d51b52c34879c9f, 0x5d61888cac3906f4,
    0x5d6a4cd302558a6e, 0x5d6465c446285639, 0x5d71888cac3906f4, 0x5d7eaef62d63cc2b, 0x5d70e92920fa525a, 0x5d871fe9a2c6e0dc,
    0x5d81888cac3906f4, 0x5d8eaef62d63cc2b, 0x5d971fe9a2c6e0dc, 0x5d91888cac3906f4, 0x5d9eaef62d63cc2b, 0x5da157ef3a1528a5,
    0x5dace7e40b789913, 0x5da1888cac3906f4, 0x5db157ef3a1528a5, 0x5dbce7e40b789913, 0x5db4543b277ff3e8, 0x5dc3e2769f052722,
    0x5dcc34f86ca6ddd6, 0x5dc157ef3a1528a5, 0x5dd3e2769f052722, 0x5dddd3b1ee87bab3, 0x5dd0a5039b436d68, 0x5defe85261f02860,
    0x5de3e2769f052722, 0x5dedd3b1ee87bab3, 0x5dffe85261f02860, 0x5df3e2769f052722, 0x5dfdd3b1ee87bab3, 0x5e07ee3dc9741e48,
    0x5e0fe85261f02860, 0x5e01b05c6f3ad541, 0x5e13f1337d36193c, 0x5e1fe85261f02860, 0x5e11b05c6f3ad541, 0x5e21f2ae571716b6,
    0x5e2fe85261f02860, 0x5e21b05c6f3ad541, 0x5e30f36bc4079573, 0x5e3fe85261f02860, 0x5e30762663678b96, 0x5e40f36bc4079573,
    0x5e4fe85261f02860, 0x5e40762663678b96, 0x5e52b048a99c9965, 0x5e51b106168d1822, 0x5e50f36bc4079573, 0x5e6b88cbb4e32576,
    0x5e62b048a99c9965, 0x5e61b106168d1822, 0x5e7b88cbb4e32576, 0x5e73af8b3cac1aa8, 0x5e7d8750db0227fc, 0x5e8b88cbb4e32576,
    0x5e813999d5169753, 0x5e8ffd424297ab51, 0x5e9b88cbb4e32576, 0x5e903a5742071610, 0x5e985782e30aa118, 0x5eab88cbb4e32576,
    0x5ea03a5742071610, 0x5eac6618b38c669c, 0x5ebd90169d240838, 0x5ebb88cbb4e32576, 0x5eb03a5742071610, 0x5ecd90169d240838,
    0x5ecb88cbb4e32576, 0x5ec03a5742071610, 0x5ed62c10f5db062a, 0x5edd90169d240838, 0x5ed321209979b207, 0x5ee27a0e22368523,
    0x5eed90169d240838, 0x5ee016303d185de4, 0x5ef7833fa59d0dfd, 0x5ef27a0e22368523, 0x5efd90169d240838, 0x5f07833fa59d0dfd,
    0x5f0b354279418f04, 0x5f03d13cd1f88cf6, 0x5f1e509043ed71be, 0x5f1467f1daf12b43, 0x5f1b354279418f04, 0x5f2e509043ed71be,
    0x5f2467f1daf12b43, 0x5f2b354279418f04, 0x5f3a2314821a472f, 0x5f3e509043ed71be, 0x5f35f598c0471ca0, 0x5f44a5ae52088007,
    0x5f40783290355578, 0x5f4b72fef058e3c8, 0x5f54a5ae52088007, 0x5f50783290355578, 0x5f5e31b20861c75c, 0x5f660507de0cf1d1,
    0x5f64a5ae52088007, 0x5f60783290355578, 0x5f760507de0cf1d1, 0x5f75555b180ab8ec, 0x5f70783290355578, 0x5f860507de0cf1d1,
    0x5f85555b180ab8ec, 0x5f80783290355578, 0x5f9b5a5ea40fa00c, 0x5f90000452080ab1, 0x5f9aaab1de0d6727, 0x5fab5a5ea40fa00c,
    0x5fa0000452080ab1, 0x5faaaab1de0d6727, 0x5fb483c6fb0bb809, 0x5fbb5a5ea40fa00c, 0x5fb0000452080ab1, 0x5fc483c6fb0bb809,
    0x5fcb5a5ea40fa00c, 0x5fc241e5a689e15d, 0x5fd42376c24b6997, 0x5fda99be328f0328, 0x5fd483c6fb0bb809, 0x5feac9e64eef2a61,
    0x5fe42376c24b6997, 0x5fe3f34ea5eb425e, 0x5ff776ae889d49fc, 0x5ff0a016df9961f9, 0x5ffdecf5f8e0e38d, 0x600776ae889d49fc,
    0x6000a016df9961f9, 0x600decf5f8e0e38d, 0x60119902e675f77d, 0x601d545a2ac49c7b, 0x6010a016df9961f9, 0x60219902e675f77d,
    0x602d545a2ac49c7b, 0x602261c6d0f265c8, 0x603fa09304e2e934, 0x6039c2e762bb96b5, 0x60319902e675f77d, 0x604fa09304e2e934,
    0x6043e53bc0944436, 0x604dd7d9a0de6651, 0x6057b86e43aa2ee7, 0x605fa09304e2e934, 0x605053c8f88b3e70, 0x6067b86e43aa2ee7,
    0x606fa09304e2e934, 0x606053c8f88b3e70, 0x6077b86e43aa2ee7, 0x607fa09304e2e934, 0x6071dac2a182dc68, 0x60820ba1d6a1d027,
    0x6087b86e43aa2ee7, 0x608fa09304e2e934, 0x609f0585228f1561, 0x6099f3c697da8a74, 0x609446fa2ad22bb4, 0x60af0585228f1561,
    0x60a376d4f1e3e7d7, 0x60a9f3c697da8a74, 0x60b2c13b6442dbff, 0x60b888937c9872c4, 0x60b376d4f1e3e7d7, 0x60c8e3604368f8b0,
    0x60c2c13b6442dbff, 0x60c2666e9d725613, 0x60d8e3604368f8b0, 0x60d2eea1c7ab1ef5, 0x60d2666e9d725613, 0x60e2aa88328eba84,
    0x60ef1c38544336dc, 0x60e00cb2245babf7, 0x60f2aa88328eba84, 0x60ff1c38544336dc, 0x60f00cb2245babf7, 0x61011c522e582af9,
    0x610f1c38544336dc, 0x61000cb2245babf7, 0x61111c522e582af9, 0x611f1c38544336dc, 0x6110711c1b2aea3c, 0x61256913865b3e16,
    0x61211c522e582af9, 0x612f1c38544336dc, 0x61356913865b3e16, 0x61311c522e582af9, 0x613f1c38544336dc, 0x614b8a736a0d5561,
    0x6140d5e9a6dfb656, 0x61456913865b3e16, 0x615b8a736a0d5561, 0x6150d5e9a6dfb656, 0x615940de7a4f9181, 0x6161fab41ebe9846,
    0x61631f7e969d7a36, 0x6160d5e9a6dfb656, 0x6171fab41ebe9846, 0x617af80e2e1de469, 0x617003128e305b20, 0x6181fab41ebe9846,
    0x618af80e2e1de469, 0x618003128e305b20, 0x6191fab41ebe9846, 0x619af80e2e1de469, 0x619003128e305b20, 0x61ab0a5ad59bd288,
    0x61a1fab41ebe9846, 0x61aaf80e2e1de469, 0x61bb0a5ad59bd288, 0x61b1fab41ebe9846, 0x61baf80e2e1de469, 0x61c447c42034dde6,
    0x61cb0a5ad59bd288, 0x61c1d61acfc2bc08, 0x61d0e678c5816395, 0x61de6ba6304f4cd9, 0x61d1d61acfc2bc08, 0x61e3b4801fd74c7e,
    0x61e0e678c5816395, 0x61ee6ba6304f4cd9, 0x61f3b4801fd74c7e, 0x61fd8ec02fc2f2bd, 0x61f0e678c5816395, 0x6203b4801fd74c7e,
    0x620d8ec02fc2f2bd, 0x6203d9511feeb0d8, 0x62170362fa7f14a2, 0x6213b4801fd74c7e, 0x621d8ec02fc2f2bd, 0x62270362fa7f14a2,
    0x6223b4801fd74c7e, 0x622d8ec02fc2f2bd, 0x62362faa43d52299, 0x62370362fa7f14a2, 0x62355bf18d2b3090, 0x6240d8ade08a5675,
    0x624004f529e0646c, 0x624ab2edf075fcb4, 0x6253842c122fbc87, 0x6250d8ade08a5675, 0x625004f529e0646c, 0x62622e6cf95d097e,
    0x626004f529e0646c, 0x626eb42b3aee15cf, 0x62722e6cf95d097e, 0x627b45a3760b8e3d, 0x627004f529e0646c, 0x628764e7c41da562,
    0x628c9b628ede4146, 0x62822e6cf95d097e, 0x629764e7c41da562, 0x62923eadc5a2219e, 0x629f46e0c083a758, 0x62a8b28676cdcc5b,
    0x62a764e7c41da562, 0x62a0f10f12f1faa5, 0x62b8b28676cdcc5b, 0x62b2327d2c6e4f86, 0x62b3801bdf1e767f, 0x62c8b28676cdcc5b,
    0x62c2327d2c6e4f86, 0x62cb4bbbc2a57749, 0x62d8b28676cdcc5b, 0x62d0e5e286827a0f, 0x62d765ebd0e1f6e4, 0x62e8b28676cdcc5b,
    0x62e4cc347ea82335, 0x62e37f99d8bc4dbe, 0x62f6bf5d7abaf7c8, 0x62f18c70dca9792b, 0x62ff328fc12d4930, 0x6306bf5d7abaf7c8,
    0x63018c70dca9792b, 0x630f328fc12d4930, 0x63110f861c0c39d6, 0x631c6f34d969b5ba, 0x63118c70dca9792b, 0x63210f861c0c39d6,
    0x632f472088c114b3, 0x63218c70dca9792b, 0x63310f861c0c39d6, 0x633f472088c114b3, 0x6330c6c857f3b46a, 0x63410f861c0c39d6,
    0x634f472088c114b3, 0x6340c6c857f3b46a, 0x6358c4b5e7d3edb6, 0x6355ecca387c8ebd, 0x63510f861c0c39d6, 0x6368c4b5e7d3edb6,
    0x636314de89252fc4, 0x636c9f4dcdb7c7a6, 0x637d89ed8a1d39a7, 0x6378c4b5e7d3edb6, 0x637314de89252fc4, 0x6384f6243f039841,
    0x63812792963342cc, 0x6389bb5be14ce432, 0x6394f6243f039841, 0x63912792963342cc, 0x639e054086d9b4e5, 0x63a4f6243f039841,
    0x63a94008e49068f4, 0x63a0ac3f9976c78e, 0x63bb46267827b27e, 0x63b2f006ab6c4eb7, 0x63bf900b1db48331, 0x63cb46267827b27e,
    0x63c2f006ab6c4eb7, 0x63cf900b1db48331, 0x63db46267827b27e, 0x63d3f3157537f37c, 0x63ddeca02fd3ed3a, 0x63e29fd89961d61e,
    0x63eb46267827b27e, 0x63e3f3157537f37c, 0x63f29fd89961d61e, 0x63fbefc4e612c12d, 0x63f14c9bbd8bb8c0, 0x6404c96c11134d36,
    0x6406f2ff88c4c44e, 0x64029fd89961d61e, 0x6414c96c11134d36, 0x641f2e22199cf3d1, 0x641037d201b2fd34, 0x6424c96c11134d36,
    0x642f2e22199cf3d1, 0x642037d201b2fd34, 0x6434c96c11134d36, 0x643f2e22199cf3d1, 0x643037d201b2fd34, 0x6444c96c11134d36,
    0x644f2e22199cf3d1, 0x644553d0eeffaafc, 0x6454c96c11134d36, 0x645f2e22199cf3d1, 0x6457967f666e5a07, 0x6464c96c11134d36,
    0x646f2e22199cf3d1, 0x6462418b2aae6f48, 0x647959cedbbee908, 0x6474c96c11134d36, 0x647f2e22199cf3d1, 0x648959cedbbee908,
    0x6484c96c11134d36, 0x648f2e22199cf3d1, 0x6493035b24cf2ec6, 0x649fb04292aea34a, 0x649039094667b164, 0x64a3035b24cf2ec6,
    0x64afb04292aea34a, 0x64a0d9a0c4872128, 0x64b374df5fe03662, 0x64b049a584685941, 0x64b3035b24cf2ec6, 0x64c374df5fe03662,
    0x64cd2f4f0fd05193, 0x64c3ada17d68ba30, 0x64d374df5fe03662, 0x64dd2f4f0fd05193, 0x64d06606932c9b28, 0x64e518acd4fe45e6,
    0x64e6bc7a4a1c556a, 0x64e374df5fe03662, 0x64f518acd4fe45e6, 0x64ffa5033f7d68d9, 0x64f06606932c9b28, 0x650518acd4fe45e6,
    0x650fa5033f7d68d9, 0x65006606932c9b28, 0x651518acd4fe45e6, 0x651fa5033f7d68d9, 0x65106feeaba9fa3e, 0x652518acd4fe45e6,
    0x652fa5033f7d68d9, 0x65206feeaba9fa3e, 0x6531312ad8b78947, 0x653518acd4fe45e6, 0x653fa5033f7d68d9, 0x654f0feb7a52df64,
    0x6541312ad8b78947, 0x654bbd814336ac3a, 0x655f0feb7a52df64, 0x65509c13138cffd2, 0x655f8ef10b8be60f, 0x65674bf09bbe278b,
    0x656f0feb7a52df64, 0x65609c13138cffd2, 0x65774bf09bbe278b, 0x657f0feb7a52df64, 0x6572da5ff445a2dc, 0x658d893a099137d3,
    0x6585c53f2afc7ffa, 0x65874bf09bbe278b, 0x659d893a099137d3, 0x6595c53f2afc7ffa, 0x65974bf09bbe278b, 0x65ad893a099137d3,
    0x65a435eccf87bbe8, 0x65a2a69a7412f7d6, 0x65b435eccf87bbe8, 0x65be50e3374b99dc, 0x65b2a69a7412f7d6, 0x65c435eccf87bbe8,
    0x65ce50e3374b99dc, 0x65c11748189e33c4, 0x65d1af2f3596c46b, 0x65de50e3374b99dc, 0x65d176cc3a21d688, 0x65e5157705a306a2,
    0x65e28eb96bb20f25, 0x65e1af2f3596c46b, 0x65f5157705a306a2, 0x65ffa032887489f3, 0x65f007fbd1c117a8, 0x6605157705a306a2,
    0x660fa032887489f3, 0x660007fbd1c117a8, 0x6615157705a306a2, 0x661fa032887489f3, 0x661007fbd1c117a8, 0x6620d09901565674,
    0x6625157705a306a2, 0x662fa032887489f3, 0x6630d09901565674, 0x663938e5820181ae, 0x663113781132c0b8, 0x6640d09901565674,
    0x664d6d0bc257174b, 0x664113781132c0b8, 0x66583009e2e9e2eb, 0x6650d09901565674, 0x665d6d0bc257174b, 0x66683009e2e9e2eb,
    0x666c6430233f7888, 0x6663fbe3a2944d4e, 0x66783009e2e9e2eb, 0x66754b241a6f9a66, 0x667c6430233f7888, 0x66883009e2e9e2eb,
    0x6681be9e1607ab55, 0x668ff0b627a76799, 0x66983009e2e9e2eb, 0x669bbc8fe751d1fc, 0x6694a383de81f3da, 0x66af1f2ddcbe576a,
    0x66a83009e2e9e2eb, 0x66a4cd6bed7d5d7d, 0x66bf1f2ddcbe576a, 0x66b140e5e9156e6c, 0x66b9e158dda025a2, 0x66c3dfd068a48750,
    0x66cf1f2ddcbe576a, 0x66c140e5e9156e6c, 0x66d3dfd068a48750, 0x66ddcfb89cf6caf8, 0x66d0df0c2e26b827, 0x66e3dfd068a48750,
    0x66edcfb89cf6caf8, 0x66e061399d3e5b91, 0x66f163d65b8ff666, 0x66fdcfb89cf6caf8, 0x66f061399d3e5b91, 0x670025d95505adf1,
    0x670f0db5a381136d, 0x670061399d3e5b91, 0x671256b22ec6fdbd, 0x671118b5283cb548, 0x671025d95505adf1, 0x672ae30cc2e55861,
    0x672118b5283cb548, 0x6729a50fbc5b0fec, 0x673f293a0cf485b3, 0x673118b5283cb548, 0x673deb3d066a3d3e, 0x674118b5283cb548,
    0x674deb3d066a3d3e, 0x674025d95505adf1, 0x6750a62858fe0e2e, 0x675118b5283cb548, 0x675deb3d066a3d3e, 0x6760a62858fe0e2e,
    0x6768f93c857d1545, 0x676118b5283cb548, 0x6775e13dc1c15d0e, 0x6770a62858fe0e2e, 0x6778f93c857d1545, 0x6785e13dc1c15d0e,
    0x6780a62858fe0e2e, 0x6788f93c857d1545, 0x679f8317487137dd, 0x6795e13dc1c15d0e, 0x679343b30d5fb59e, 0x67af8317487137dd,
    0x67a539db14a8f332, 0x67a4927867908956, 0x67b539db14a8f332, 0x67bfd6c89efd6ccb, 0x67b4927867908956, 0x67c510026962d8bb,
    0x67c539db14a8f332, 0x67c4e629be1cbe44, 0x67dfaceff3b75254, 0x67d4e629be1cbe44, 0x67df593e9d2b1d66, 0x67e7c1b3f6c97dbf,
    0x67efaceff3b75254, 0x67e4e629be1cbe44, 0x67f668db30162b3d, 0x67f7c1b3f6c97dbf, 0x67ffaceff3b75254, 0x680668db30162b3d,
    0x680e54172d03ffd2, 0x6805bc6eccbc81fc, 0x6812c973634c1593, 0x68121d06fff26c52, 0x681cfb3e6650ad50, 0x6824992749b12068,
    0x6822c973634c1593, 0x68204d53198d617d, 0x6834992749b12068, 0x683ee5baee89b09c, 0x6830f9bf7ce70abe, 0x6844992749b12068,
    0x684ee5baee89b09c, 0x6840b0ed9c243259, 0x68520602607afc5b, 0x685ee5baee89b09c, 0x685008453b271198, 0x686cb44e86bc192b,
    0x686a21299d85f51e, 0x68620602607afc5b, 0x687cb44e86bc192b, 0x687a21299d85f51e, 0x68720602607afc5b, 0x6884e271aabf89dd,
    0x6887759693f5adea, 0x688f47736ff23d38, 0x6894e271aabf89dd, 0x68938ca825f76643, 0x689f47736ff23d38, 0x68a8cb6018bdd184,
    0x68a0f9833cc14236, 0x68a97644db21e351, 0x68b29888128e5d23, 0x68befe381eed45e5, 0x68b0056329583916, 0x68c3bd7cdea6f380,
    0x68cb1549b0eefe3e, 0x68c29888128e5d23, 0x68d3bd7cdea6f380, 0x68dd9c3b4dfa6d40, 0x68d25b800db41adb, 0x68e3bd7cdea6f380,
    0x68ed9c3b4dfa6d40, 0x68e25b800db41adb, 0x68f145cd42d21510, 0x68fd9c3b4dfa6d40, 0x68f0daff3a542112, 0x690009f574e7a5d8,
    0x690ed8131be4dc78, 0x6900daff3a542112, 0x691009f574e7a5d8, 0x691f75ff02da1414, 0x6910703131d62d14, 0x692009f574e7a5d8,
    0x692fc4f4f654afe2, 0x6920293f0698ec22, 0x693009f574e7a5d8, 0x693fec6ff011fdc9, 0x69300cd68a24d49e, 0x69441c5fceb2921d,
    0x694009f574e7a5d8, 0x694fec6ff011fdc9, 0x69541c5fceb2921d, 0x695443dac86fe004, 0x6953f4e4d4f54436, 0x69641c5fceb2921d,
    0x696443dac86fe004, 0x696e65c82ca7d006, 0x69741c5fceb2921d, 0x69792d5680ce8a1e, 0x6976911daae1e72a, 0x69805985878ceb96,
    0x6982ce4363bc40a3, 0x698e16d2392d3438, 0x69905985878ceb96, 0x699886484b536161, 0x6992ce4363bc40a3, 0x69ae7e16d0c96f8a,
    0x69a05985878ceb96, 0x69a886484b536161, 0x69be7e16d0c96f8a, 0x69b05985878ceb96, 0x69b886484b536161, 0x69caf4f27e7a4e8d,
    0x69ce7e16d0c96f8a, 0x69c76bce2c2b2d90, 0x69daf4f27e7a4e8d, 0x69d519fef36f8329, 0x69d190daa120622c, 0x69eaf4f27e7a4e8d,
    0x69e80778b8f4e8db, 0x69e190daa120622c, 0x69f97e359bb79bb4, 0x69f01a1dbe5daf53, 0x69febd7e99f8abcd, 0x6a097e359bb79bb4,
    0x6a001a1dbe5daf53, 0x6a0ebd7e99f8abcd, 0x6a131ea834c9b4c7, 0x6a1fddc302a582a1, 0x6a101a1dbe5daf53, 0x6a231ea834c9b4c7,
    0x6a2fddc302a582a1, 0x6a2397b9b839806f, 0x6a31e47413bee7c2, 0x6a331ea834c9b4c7, 0x6a3fddc302a582a1, 0x6a41e47413bee7c2,
    0x6a4ad6ae1d9e5ba3, 0x6a431ea834c9b4c7, 0x6a598d57cc259529, 0x6a509b1dc2462148, 0x6a51e47413bee7c2, 0x6a698d57cc259529,
    0x6a609b1dc2462148, 0x6a68e8aca36931ec, 0x6a7db41f3cb71d7b, 0x6a798d57cc259529, 0x6a709b1dc2462148, 0x6a8db41f3cb71d7b,
    0x6a8ba0bb846e5952, 0x6a809b1dc2462148, 0x6a9db41f3cb71d7b, 0x6a9ba0bb846e5952, 0x6a909b1dc2462148, 0x6aadb41f3cb71d7b,
    0x6aa5c23e7f772512, 0x6aa7d5a237bfe93b, 0x6abdb41f3cb71d7b, 0x6ab5c23e7f772512, 0x6ab7d5a237bfe93b, 0x6acdb41f3cb71d7b,
    0x6ac44a9f3e395802, 0x6ac2d2fffcfb8af2, 0x6ad44a9f3e395802, 0x6ade6feedd560403, 0x6ad2d2fffcfb8af2, 0x6ae3ecb76de9e4be,
    0x6ae44a9f3e395802, 0x6ae38ecf9d9a717a, 0x6af3ecb76de9e4be, 0x6afde31324ded71d, 0x6af023d7cda7cfb0, 0x6b0dfa8d18f2b3ee,
    0x6b03ecb76de9e4be, 0x6b0de31324ded71d, 0x6b1dfa8d18f2b3ee, 0x6b13ecb76de9e4be, 0x6b1de31324ded71d, 0x6b2dfa8d18f2b3ee,
    0x6b28f3a2436e4c56, 0x6b219835eb4f6a94, 0x6b3dfa8d18f2b3ee, 0x6b3b7717ae308022, 0x6b30567b35ee50ae, 0x6b4dfa8d18f2b3ee,
    0x6b4cb8d263919a08, 0x6b40567b35ee50ae, 0x6b5dfa8d18f2b3ee, 0x6b558a9dcaad3386, 0x6b5cb8d263919a08, 0x6b629460d8eb8d38,
    0x6b6dfa8d18f2b3ee, 0x6b61f3837e3b0045, 0x6b729460d8eb8d38, 0x6b7bde91456153d4, 0x6b711942600aba11, 0x6b829460d8eb8d38,
    0x6b8bde91456153d4, 0x6b80dfde9c8b00d0, 0x6b9041d4bdce1b91, 0x6b9e311d607ec57b, 0x6b90dfde9c8b00d0, 0x6ba041d4bdce1b91,
    0x6bae311d607ec57b, 0x6ba0e2b2187ea884, 0x6bba6427ab7d6a9a, 0x6bb8119b905ff8f3, 0x6bb041d4bdce1b91, 0x6bca6427ab7d6a9a,
    0x6bc5bf0f7542874c, 0x6bc041d4bdce1b91, 0x6bda6427ab7d6a9a, 0x6bd04f4b97f1e579, 0x6bdb2ed35293291f, 0x6bea6427ab7d6a9a,
    0x6be2a1d7b30f5720, 0x6bebf2c38c9702b0, 0x6bff0c9d98414062, 0x6bf1da89c2828b15, 0x6bfa6427ab7d6a9a, 0x6c0f0c9d98414062,
    0x6c004d9cbcad6c3c, 0x6c0e46fe82f8ed94, 0x6c10b06c475195a3, 0x6c1f0c9d98414062, 0x6c104d9cbcad6c3c, 0x6c201b5d89b91aea,
    0x6c204d9cbcad6c3c, 0x6c2f711bfe29e306, 0x6c301b5d89b91aea, 0x6c38290c4e95a85f, 0x6c304d9cbcad6c3c, 0x6c401b5d89b91aea,
    0x6c48290c4e95a85f, 0x6c41457b04ea105c, 0x6c501b5d89b91aea, 0x6c58290c4e95a85f, 0x6c528e9449229a52, 0x6c601b5d89b91aea,
    0x6c68290c4e95a85f, 0x6c628e9449229a52, 0x6c75ae169cea43d6, 0x6c7b40cfb01b6cc2, 0x6c701b5d89b91aea, 0x6c85ae169cea43d6,
    0x6c80b82b39937ac4, 0x6c8ea6f9e98e6112, 0x6c95ae169cea43d6, 0x6c90b82b39937ac4, 0x6c9ea6f9e98e6112, 0x6ca5ae169cea43d6,
    0x6ca259965ce22239, 0x6cae954ff0238e5f, 0x6cb3517f5a800dea, 0x6cb5ae169cea43d6, 0x6cb0f4e81815d7fe, 0x6cc3517f5a800dea,
    0x6cccfa3f07c014df, 0x6cc08822d0e77974, 0x6cd3517f5a800dea, 0x6cdcfa3f07c014df, 0x6cd08822d0e77974, 0x6ce87172196d5822,
    0x6ce3517f5a800dea, 0x6cecfa3f07c014df, 0x6cf87172196d5822, 0x6cf3517f5a800dea, 0x6cfcfa3f07c014df, 0x6d07297569b20594,
    0x6d087172196d5822, 0x6d05e178b9f6b306, 0x6d17297569b20594, 0x6d1003d694a587ef, 0x6d1f63aed16d6697, 0x6d215f180f45842f,
    0x6d2cf3d2c41e86f9, 0x6d2003d694a587ef, 0x6d315f180f45842f, 0x6d3cf3d2c41e86f9, 0x6d3013e53db96aae, 0x6d48c50c5644903f,
    0x6d415f180f45842f, 0x6d4cf3d2c41e86f9, 0x6d58c50c5644903f, 0x6d5e8f69b0b111a4, 0x6d52faaefbd80eda, 0x6d68c50c5644903f,
    0x6d66eb8f4484cd3b, 0x6d6e8f69b0b111a4, 0x6d78c50c5644903f, 0x6d70347361386a54, 0x6d712131ea184bd6, 0x6d80347361386a54,
    0x6d884ead11d49f7e, 0x6d802f065b4dea63, 0x6d90347361386a54, 0x6d9c5bc9ea22ba13, 0x6d902f065b4dea63, 0x6da276316f976fff,
    0x6da0347361386a54, 0x6dac5bc9ea22ba13, 0x6dbdb7d8938a3549, 0x6db276316f976fff, 0x6db6834e47e58a94, 0x6dc817050190d2a4,
    0x6dc0e27ab5ec27ef, 0x6dcc2421d9deed39, 0x6dd817050190d2a4, 0x6dd0e27ab5ec27ef, 0x6ddc2421d9deed39, 0x6de21143c12c9dfb,
    0x6dee1cc641f5074d, 0x6de0e27ab5ec27ef, 0x6df21143c12c9dfb, 0x6dfe1cc641f5074d, 0x6df179df3b8c62f5, 0x6e0e038ad65a52cc,
    0x6e021143c12c9dfb, 0x6e0e1cc641f5074d, 0x6e1e038ad65a52cc, 0x6e121143c12c9dfb, 0x6e1e1cc641f5074d, 0x6e2682a820c3be19,
    0x6e2e038ad65a52cc, 0x6e221143c12c9dfb, 0x6e3682a820c3be19, 0x6e3e038ad65a52cc, 0x6e3449f5f0f82e0a, 0x6e4682a820c3be19,
    0x6e4e038ad65a52cc, 0x6e40e84cf3797bb3, 0x6e5bf3edfa4e619e, 0x6e54730b44b7cceb, 0x6e5682a820c3be19, 0x6e6bf3edfa4e619e,
    0x6e636b3cd6b1d454, 0x6e69e4511e427070, 0x6e7bf3edfa4e619e, 0x6e702eb2b2e98646, 0x6e7d20db420abe7e, 0x6e8d92330c3288a5,
    0x6e8bf3edfa4e619e, 0x6e802eb2b2e98646, 0x6e95c61504acdcba, 0x6e97645a169103c1, 0x6e9f30781e16afac, 0x6ea5c61504acdcba,
    0x6ea7645a169103c1, 0x6eaf30781e16afac, 0x6ebf1da9499ae9de, 0x6eb5c61504acdcba, 0x6eb2af2889dc1a48, 0x6ecf1da9499ae9de,
    0x6ec5c61504acdcba, 0x6ec2af2889dc1a48, 0x6edcc7c4385f6695, 0x6eda71df2723e34c, 0x6ed0594378a096ff, 0x6ee3d5675d5aea79,
    0x6eea71df2723e34c, 0x6ee0594378a096ff, 0x6ef1b21e01142fb4, 0x6ef3d5675d5aea79, 0x6efa71df2723e34c, 0x6f01b21e01142fb4,
    0x6f0a8b2d019e478e, 0x6f03d5675d5aea79, 0x6f11b21e01142fb4, 0x6f1ef7b481e3537b, 0x6f117f824c1f6730, 0x6f27369da61b3214,
    0x6f22ca1625d62627, 0x6f21b21e01142fb4, 0x6f37369da61b3214, 0x6f358c55f859a757, 0x6f3cbb1d4b223474, 0x6f4168f63c94658f,
    0x6f4d04450fa1fe99, 0x6f408d7eef150720, 0x6f5168f63c94658f, 0x6f5d04450fa1fe99, 0x6f508d7eef150720, 0x6f6d5c8d09f26ebf,
    0x6f6168f63c94658f, 0x6f6d04450fa1fe99, 0x6f7d5c8d09f26ebf, 0x6f71951a39bc9da2, 0x6f778ee5a06ba23a, 0x6f8d5c8d09f26ebf,
    0x6f81951a39bc9da2, 0x6f8a5fa7569aec73, 0x6f9d5c8d09f26ebf, 0x6f93138d13685ec8, 0x6f9491ffed141fee, 0x6fa3138d13685ec8,
    0x6fac9d539d1c8e2c, 0x6fa06eef5a614ca2, 0x6fb3138d13685ec8, 0x6fbc9d539d1c8e2c, 0x6fb06eef5a614ca2, 0x6fc0b11b70fb52ef,
    0x6fceffc53f899a05, 0x6fc06eef5a614ca2, 0x6fd4a4629b09d4fe, 0x6fd0b11b70fb52ef, 0x6fdeffc53f899a05, 0x6fe4a4629b09d4fe,
    0x6feef693e88ebf7d, 0x6fe0b11b70fb52ef, 0x6ffafeb41302d02a, 0x6ff4a4629b09d4fe, 0x6ffef693e88ebf7d, 0x700afeb41302d02a,
    0x7004a4629b09d4fe, 0x700ef693e88ebf7d, 0x7019681fb504915f, 0x701afeb41302d02a, 0x7017d18b57065294, 0x7029681fb504915f,
    0x702373bcdf42fcba, 0x7021dd288144bdef, 0x7039681fb504915f, 0x703373bcdf42fcba, 0x703d2d9b4ee47b17, 0x704190ff125307de,
    0x70478561e8149c83, 0x704f5c828ac62604, 0x705190ff125307de, 0x705a597e9b7c8bcd, 0x70578561e8149c83, 0x7069e0cf28408e96,
    0x706190ff125307de, 0x706a597e9b7c8bcd, 0x7079e0cf28408e96, 0x707190ff125307de, 0x707a597e9b7c8bcd, 0x7089e0cf28408e96,
    0x7085b8e71d49cb3a, 0x70809fa02bdb0d70, 0x7099e0cf28408e96, 0x7097ccdb22c52ce8, 0x70909fa02bdb0d70, 0x70a2e39e5cd19285,
    0x70a9e0cf28408e96, 0x70a1d9a45a13e1ae, 0x70b2e39e5cd19285, 0x70bfd405f0f1d9d0, 0x70b1d9a45a13e1ae, 0x70c2e39e5cd19285,
    0x70c7df0474b5635c, 0x70cfd405f0f1d9d0, 0x70d6de1f1aefcdbf, 0x70d2e39e5cd19285, 0x70d3e483b6972822, 0x70e6de1f1aefcdbf,
    0x70e4e0debbe0b022, 0x70e1e74357880a85, 0x70f4e0debbe0b022, 0x70ff514e19d10833, 0x70f1e74357880a85, 0x7100a7473c7012e8,
    0x7104e0debbe0b022, 0x710f514e19d10833, 0x7110a7473c7012e8, 0x7118faeadaa81c5c, 0x7110e65dfdc274e8, 0x7120a7473c7012e8,
    0x712d24bca9c42116, 0x7120e65dfdc274e8, 0x7130a7473c7012e8, 0x713f39a591522373, 0x713004c715eae200, 0x714f3d96fd674993,
    0x7140a7473c7012e8, 0x714f39a591522373, 0x715f3d96fd674993, 0x7150a93ff27aa5f8, 0x715d28ae15d94736, 0x7160a93ff27aa5f8,
    0x7168fddfebb7f8f4, 0x7162bf25350df1dd, 0x7170a93ff27aa5f8, 0x717d282fe856a272, 0x7170ab38a8853908, 0x7180a93ff27aa5f8,
    0x718f3d57e6a5f731, 0x718000186591c4ba, 0x7196e8d778c94d66, 0x7190a93ff27aa5f8, 0x719f3d57e6a5f731, 0x71a6e8d778c94d66,
    0x71a0a93ff27aa5f8, 0x71af3d57e6a5f731, 0x71b6e8d778c94d66, 0x71b44e5d980df92b, 0x71bb13277567f6e4, 0x71c6e8d778c94d66,
    0x71c2393599bea46c, 0x71cb55d0669df6a2, 0x71d6e8d778c94d66, 0x71d2393599bea46c, 0x71dfe41dcd0d9fbd, 0x71eeea340a33754d,
    0x71e6e8d778c94d66, 0x71e002b922d44fce, 0x71f52f4fe34c0e00, 0x71f375c84dcece9a, 0x71fd30ac74b635e7, 0x72052f4fe34c0e00,
    0x720fc6f7d4f21500, 0x720375c84dcece9a, 0x72152f4fe34c0e00, 0x721fc6f7d4f21500, 0x7211bc40b8518f34, 0x72228965e6e28c40,
    0x722fc6f7d4f21500, 0x72201257bf01f275, 0x72313670e8adcb60, 0x723fc6f7d4f21500, 0x723028ba09268927, 0x72408cf669936af0,
    0x724fc6f7d4f21500, 0x724028ba09268927, 0x725038392a063ab8, 0x725fc6f7d4f21500, 0x725012b630ebc5b7, 0x72600dda8a3fa29c,
    0x726ff15674b8ad1c, 0x726012b630ebc5b7, 0x72700dda8a3fa29c, 0x727ff15674b8ad1c, 0x7270018dff5d2562, 0x72800342e24dfc95,
    0x728ffbee1caa5323, 0x728001238af94160, 0x72900342e24dfc95, 0x729ffbee1caa5323, 0x7290004d0cef41f0, 0x72a00342e24dfc95,
    0x72affbee1caa5323, 0x72a0004d0cef41f0, 0x72b00342e24dfc95, 0x72bffbee1caa5323, 0x72b000176d6cc214, 0x72c15652b043fd63,
    0x72c14bbb0852575c, 0x72c00342e24dfc95, 0x72d15652b043fd63, 0x72d14bbb0852575c, 0x72d9f1988c7b830a, 0x72e5a9417258933a,
    0x72e15652b043fd63, 0x72e14bbb0852575c, 0x72f5a9417258933a, 0x72f38515e5471b52, 0x72fa06c7dc5ecf18, 0x7308ea1a6de46d1d,
    0x730c2af369704700, 0x7305a9417258933a, 0x731ff4d748407edd, 0x731520368f143540, 0x731c2af369704700, 0x73219ad821e62c60,
    0x732fb051d69e4fe0, 0x73200f46a203034c, 0x73319ad821e62c60, 0x733fb051d69e4fe0, 0x73300f46a203034c, 0x7340b980869aaa28,
    0x734fb051d69e4fe0, 0x73400f46a203034c, 0x735048d4b8f4e90c, 0x735fb051d69e4fe0, 0x73500f46a203034c, 0x7360107ed222087e,
    0x736fe8a7bd71306e, 0x73600a95bae6401f, 0x7370107ed222087e, 0x737fe8a7bd71306e, 0x73700a95bae6401f, 0x738203863b3edc90,
    0x7380107ed222087e, 0x738fe8a7bd71306e, 0x739203863b3edc90, 0x739b054958de4ad8, 0x7390107ed222087e, 0x73a203863b3edc90,
    0x73af862ae7ae01fc, 0x73a0107ed222087e, 0x73b203863b3edc90, 0x73bf862ae7ae01fc, 0x73b0107ed222087e, 0x73c0e34dd78aeec7,
    0x73cf862ae7ae01fc, 0x73c0107ed222087e, 0x73df04242f88c33b, 0x73dde3ebcbd4d572, 0x73d0e34dd78aeec7, 0x73ede3ebcbd4d572,
    0x73e0e34dd78aeec7, 0x73ef862ae7ae01fc, 0x73f6fb0d0ab996fa, 0x73fde3ebcbd4d572, 0x73f0122e499e5882, 0x7406fb0d0ab996fa,
    0x7401462ce2c41c2c, 0x740f17ea64fa991c, 0x7418b544bb006698, 0x7416fb0d0ab996fa, 0x7411462ce2c41c2c, 0x7428b544bb006698,
    0x7426fb0d0ab996fa, 0x742069110aa0b45d, 0x743287f38c404cf2, 0x743ee295e9c0803e, 0x743540d55a72c75c, 0x744287f38c404cf2,
    0x744ee295e9c0803e, 0x7441cc65f9e52820, 0x7456bb62833eac47, 0x745287f38c404cf2, 0x745ee295e9c0803e, 0x7466bb62833eac47,
    0x7469d20b1a9eb91a, 0x7463a4b9ebde9f74, 0x7471d2340847046a, 0x7473a4b9ebde9f74, 0x747d7716e1cdef2e, 0x7481d2340847046a,
    0x748abb4e0c6a869f, 0x7483a4b9ebde9f74, 0x7498bb5847d49973, 0x749fa47c87622e7c, 0x7491d2340847046a, 0x74a7bb5d6589a2dd,
    0x74afa47c87622e7c, 0x74a0ffa906fa5ff6, 0x74b0523bb4d69289, 0x74b7bb5d6589a2dd, 0x74bfa47c87622e7c, 0x74c0523bb4d69289,
    0x74c83b5ad6af1e28, 0x74c0d23925fc0dd4, 0x74d0523bb4d69289, 0x74d22c842103569e, 0x74de4a318c5ae5b2, 0x74e359a70fac764e,
    0x74e0523bb4d69289, 0x74e22c842103569e, 0x74f359a70fac764e, 0x74fd067a9782b175, 0x74f3f03887010626, 0x7506ac5b262ca1ff,
    0x7509ff0f3caccdb0, 0x750359a70fac764e, 0x7516ac5b262ca1ff, 0x75137f4b6d819a44, 0x7519ff0f3caccdb0, 0x7526ac5b262ca1ff,
    0x75203f6985ec008e, 0x752d3ef124426766, 0x7536ac5b262ca1ff, 0x75303f6985ec008e, 0x753edee2180d3441, 0x7546ac5b262ca1ff,
    0x75484c4c19f76eda, 0x75450c6a3261d524, 0x7556ac5b262ca1ff, 0x7551694099942cb6, 0x75550c6a3261d524, 0x7566ac5b262ca1ff,
    0x7561694099942cb6, 0x756a1de0e65e4311, 0x7576ac5b262ca1ff, 0x757f60fb72f6b85a, 0x7574f3984613d176, 0x7586ac5b262ca1ff,
    0x75832e6c6fd3ff16, 0x758175a98fbb2e8d, 0x75932e6c6fd3ff16, 0x759cc5a2a7bdfea1, 0x759175a98fbb2e8d, 0x75a021c8af0b50c5,
    0x75a32e6c6fd3ff16, 0x75acc5a2a7bdfea1, 0x75bcfe482285f8ed, 0x75b021c8af0b50c5, 0x75b9b8fee6f55050, 0x75ccfe482285f8ed,
    0x75c6900868c8a4d9, 0x75c34abf2d37fc3c, 0x75dcfe482285f8ed, 0x75d9c72845a74ee3, 0x75d0139f50595232, 0x75ecfe482285f8ed,
    0x75eb62b83416a3e8, 0x75e0139f50595232, 0x75fcfe482285f8ed, 0x75fb62b83416a3e8, 0x75f0139f50595232, 0x760cfe482285f8ed,
    0x76048a0a2710faee, 0x760b62b83416a3e8, 0x76111db3208e2671, 0x761ecf0f3a997865, 0x7610139f50595232, 0x7620354f948466b5,
    0x76211db3208e2671, 0x762ecf0f3a997865, 0x7630354f948466b5, 0x7633a1a69b073b32, 0x763d7279e88ad8cb, 0x764d3861058868dc,
    0x7640354f948466b5, 0x764a0622e208044e, 0x765d3861058868dc, 0x76519455c342290d, 0x765ff66d6303ed8c, 0x7665ea48c4264ea5,
    0x766d3861058868dc, 0x76619455c342290d, 0x767a5de46db774e4, 0x76730fcc2c555aad, 0x7675ea48c4264ea5, 0x768a5de46db774e4,
    0x7681a28de06ce0b1, 0x768d6441cb602127, 0x7693c66b524997ab, 0x769a5de46db774e4, 0x7691a28de06ce0b1, 0x76a3c66b524997ab,
    0x76aa5de46db774e4, 0x76a2b47c995b3c2e, 0x76b3c66b524997ab, 0x76ba5de46db774e4, 0x76b2b47c995b3c2e, 0x76c3c66b524997ab,
    0x76ca5de46db774e4, 0x76c36b1bbf4f792c, 0x76d97f8b57ea756d, 0x76d2e8123c7c9834, 0x76d3c66b524997ab, 0x76e2e8123c7c9834,
    0x76ec5c1b5abae44e, 0x76e3c66b524997ab, 0x76f2e8123c7c9834, 0x76fc5c1b5abae44e, 0x76f0c918eec4708c, 0x7703d6cc82a3f3ca,
    0x770e398fe7099b7a, 0x7702e8123c7c9834, 0x7713d6cc82a3f3ca, 0x771dc232c3f5edaf, 0x7714c586c8cb4f60, 0x77266f7d5bbd5db6,
    0x7723d6cc82a3f3ca, 0x772dc232c3f5edaf, 0x77366f7d5bbd5db6, 0x7733d6cc82a3f3ca, 0x773dc232c3f5edaf, 0x7745c9512577033b,
    0x77452324ef30a8c0, 0x774fb4b766c8fd20, 0x775b121a61432d6b, 0x77552324ef30a8c0, 0x775fb4b766c8fd20, 0x776db67eff294283,
    0x77627ec0514a93a8, 0x776fb4b766c8fd20, 0x777f08b14e1c4d0f, 0x77712c8e0257891c, 0x777fb4b766c8fd20, 0x778f08b14e1c4d0f,
    0x77808374dade03d6, 0x778fb4b766c8fd20, 0x779f5d3de1d90fb2, 0x779f08b14e1c4d0f, 0x77902ee847214133, 0x77af5d3de1d90fb2,
    0x77aeb424ba5f8a6c, 0x77a02ee847214133, 0x77bf5d3de1d90fb2, 0x77b7071b8bc7a7d1, 0x77beb424ba5f8a6c, 0x77cb5c7300aebd13,
    0x77cf5d3de1d90fb2, 0x77c75ba81f846a74, 0x77d58588f8cda276, 0x77d184be17a34fd7, 0x77dd329227658511, 0x77e58588f8cda276,
    0x77e184be17a34fd7, 0x77e3af69d216da78, 0x77f58588f8cda276, 0x77f099ae8447ebd8, 0x77f8e685c66be1c4, 0x7809abf499df9d6c,
    0x780dd2603af19862, 0x78058588f8cda276, 0x7819abf499df9d6c, 0x781099ae8447ebd8, 0x781f20273806da35, 0x782340f77367b611,
    0x7829abf499df9d6c, 0x782099ae8447ebd8, 0x783340f77367b611, 0x7839abf499df9d6c, 0x7830fc65ee01c9ac, 0x784340f77367b611,
    0x7849abf499df9d6c, 0x7845542d43f0b38c, 0x785f8bf8d599a78b, 0x785340f77367b611, 0x7859abf499df9d6c, 0x7862fb7afe08c773,
    0x786920fbaf21c030, 0x786340f77367b611, 0x7872fb7afe08c773, 0x7872d8bcc3595024, 0x787f693a9aea303c, 0x78861f9a73ecff79,
    0x7882fb7afe08c773, 0x7882d8bcc3595024, 0x78961f9a73ecff79, 0x78948d8ab8fae376, 0x789146ad08673421, 0x78a48d8ab8fae376,
    0x78aed45015785531, 0x78a146ad08673421, 0x78b0332fe835389a, 0x78b48d8ab8fae376, 0x78bed45015785531, 0x78c0332fe835389a,
    0x78c84cc7dc4fd4e7, 0x78c1696b4316ab70, 0x78d0332fe835389a, 0x78d84cc7dc4fd4e7, 0x78d052d48ee540b9, 0x78e0332fe835389a,
    0x78e84cc7dc4fd4e7, 0x78e2605d50980e08, 0x78f0332fe835389a, 0x78f84cc7dc4fd4e7, 0x78f01451a6850c47, 0x79056601b74c07a1,
    0x7900332fe835389a, 0x79084cc7dc4fd4e7, 0x79156601b74c07a1, 0x791d7f99ab66a3ee, 0x7913f29ea4ca20fe, 0x792212e7467faccc,
    0x79209f8433fdc629, 0x792debedf72f317d, 0x793212e7467faccc, 0x793b1c5ae9bf8332, 0x79309f8433fdc629, 0x794212e7467faccc,
    0x794fa114bb5f6e65, 0x79409f8433fdc629, 0x795212e7467faccc, 0x795fa114bb5f6e65, 0x79539b92a60eaf14, 0x796212e7467faccc,
    0x796fa114bb5f6e65, 0x7961a59d95739d92, 0x797212e7467faccc, 0x797fa114bb5f6e65, 0x7970aaa30d2614d1, 0x79804e07a1d67b93,
    0x798212e7467faccc, 0x798fa114bb5f6e65, 0x799ab7685b91aef6, 0x79904e07a1d67b93, 0x7994d2c1737666c6, 0x79aab7685b91aef6,
    0x79a1adf4b851d890, 0x79ad7742888868f0, 0x79bc309215988102, 0x79bda9bbcf9f530e, 0x79bab7685b91aef6, 0x79cc309215988102,
    0x79c034cafe4b0684, 0x79cfad011f92a402, 0x79dc309215988102, 0x79d034cafe4b0684, 0x79dfad011f92a402, 0x79ec309215988102,
    0x79e5b1dd35f4ef86, 0x79e496fdea6fd1fd, 0x79ffce36f3ebfe43, 0x79f1b5ede91fbdc2, 0x79fc309215988102, 0x7a0fce36f3ebfe43,
    0x7a01b5ede91fbdc2, 0x7a0a90e4ddaf9ca3, 0x7a1fce36f3ebfe43, 0x7a145496f43dee92, 0x7a16f33fff5c1f62, 0x7a2fce36f3ebfe43,
    0x7a245496f43dee92, 0x7a2e7ee26e5ce5db, 0x7a34fc4137057ac6, 0x7a35a3eb79cd06fa, 0x7a345496f43dee92, 0x7a44fc4137057ac6,
    0x7a4f7a61d2883829, 0x7a400bcb6418eafa, 0x7a54fc4137057ac6, 0x7a5f7a61d2883829, 0x7a500bcb6418eafa, 0x7a6a5046cd1fcafe,
    0x7a6fa44c633a1b36, 0x7a64fc4137057ac6, 0x7a7a5046cd1fcafe, 0x7a72a6138d5c18c4, 0x7a7ff821849de150, 0x7a8a5046cd1fcafe,
    0x7a81511227d584b6, 0x7a8ff821849de150, 0x7a9a5046cd1fcafe, 0x7a90a69175123aaf, 0x7a9ff821849de150, 0x7aa4117573397d42,
    0x7aaa5046cd1fcafe, 0x7aa4bbf625fcc749, 0x7ab4117573397d42, 0x7abe1a302cd63be3, 0x7ab2bc740db2e934, 0x7ac4117573397d42,
    0x7ace1a302cd63be3, 0x7ac12cbfb73955c5, 0x7ad4117573397d42, 0x7ade1a302cd63be3, 0x7ad164a698217b18, 0x7ae4117573397d42,
    0x7aee1a302cd63be3, 0x7ae164a698217b18, 0x7af4117573397d42, 0x7afe1a302cd63be3, 0x7af164a698217b18, 0x7b0ed3b71dd7a104,
    0x7b04cafc643ae263, 0x7b04117573397d42, 0x7b1ed3b71dd7a104, 0x7b1023627fed35a3, 0x7b1ae5a42a8b5965, 0x7b271ec95661b8c3,
    0x7b2ed3b71dd7a104, 0x7b2023627fed35a3, 0x7b371ec95661b8c3, 0x7b3ed3b71dd7a104, 0x7b33a115eb277733, 0x7b4689d619d8032b,
    0x7b471ec95661b8c3, 0x7b4ed3b71dd7a104, 0x7b5689d619d8032b, 0x7b5e3ec3e14deb6c, 0x7b563f5c7b93285f, 0x7b6e1987122b7e06,
    0x7b66af12e8fa7091, 0x7b6e3ec3e14deb6c, 0x7b7e1987122b7e06, 0x7b76af12e8fa7091, 0x7b767737b246cc78, 0x7b8e1987122b7e06,
    0x7b869c74816939de, 0x7b82b8ae69e5aa64, 0x7b9e1987122b7e06, 0x7b9a5afdc9ca5bf2, 0x7b90d969c5b5195a, 0x7bae1987122b7e06,
    0x7bac3a426dfaecfc, 0x7ba0d969c5b5195a, 0x7bb61b5424947a42, 0x7bbe1987122b7e06, 0x7bb52bb1d27c31bd, 0x7bc61b5424947a42,
    0x7bc3fb7f51f9896a, 0x7bcff8cbb65c0f10, 0x7bd81ae0dffa3b33, 0x7bda1a6d9b5ffc24, 0x7bd61b5424947a42, 0x7beea17c46d23a3c,
    0x7be393d23487fd1b, 0x7bea1a6d9b5ffc24, 0x7bfea17c46d23a3c, 0x7bf393d23487fd1b, 0x7bfa1a6d9b5ffc24, 0x7c06f91d351dabad,
    0x7c0ea17c46d23a3c, 0x7c0393d23487fd1b, 0x7c1e109a7163f279, 0x7c16f91d351dabad, 0x7c1ea17c46d23a3c, 0x7c2e109a7163f279,
    0x7c22dc7cc18c4084, 0x7c26683b5faf63ea, 0x7c3e109a7163f279, 0x7c32dc7cc18c4084, 0x7c3c4abb225260c6, 0x7c4e109a7163f279,
    0x7c42dc7cc18c4084, 0x7c4c4abb225260c6, 0x7c5163dcd0e3814d, 0x7c59597b4100e258, 0x7c52dc7cc18c4084, 0x7c6163dcd0e3814d,
    0x7c63031c70c0a9c2, 0x7c6fafda11411aee, 0x7c7163dcd0e3814d, 0x7c73031c70c0a9c2, 0x7c7fafda11411aee, 0x7c8bab62ed655019,
    0x7c8163dcd0e3814d, 0x7c848f0c39039d98, 0x7c96879fdf2468b3, 0x7c948f0c39039d98, 0x7c9ed69255856c64, 0x7ca6879fdf2468b3,
    0x7ca1fd2ab1e329e5, 0x7caed69255856c64, 0x7cb6879fdf2468b3, 0x7cb919816644dc66, 0x7cb3f5be5803f500, 0x7cc18a3049236b73,
    0x7cc3f5be5803f500, 0x7ccdf09d8405ef80, 0x7cd408e81423ea13, 0x7cd18a3049236b73, 0x7cd177068d037660, 0x7ce408e81423ea13,
    0x7ce2c98c2ea3aac3, 0x7ce037aaa7833710, 0x7cf408e81423ea13, 0x7cf3693a2163ca6b, 0x7cf037aaa7833710, 0x7d03b9111ac3da3f,
    0x7d0037aaa7833710, 0x7d0fcfa75c464e78, 0x7d13e0fc9773e229, 0x7d13b9111ac3da3f, 0x7d100fbf2ad32f26, 0x7d23cd06d91bde34,
    0x7d200fbf2ad32f26, 0x7d2ff792d8f65662, 0x7d33cd06d91bde34, 0x7d3db38a45a9cd4e, 0x7d300fbf2ad32f26, 0x7d43cd06d91bde34,
    0x7d4db38a45a9cd4e, 0x7d400fbf2ad32f26, 0x7d53cd06d91bde34, 0x7d5db38a45a9cd4e, 0x7d519942182c7047, 0x7d678875916718db,
    0x7d629533db20214e, 0x7d63cd06d91bde34, 0x7d778875916718db, 0x7d729533db20214e, 0x7d7bdfcdc8b031f5, 0x7d878875916718db,
    0x7d806987bf7b94c1, 0x7d855cc975c28c4e, 0x7d93f8fea87156ce, 0x7d91cd528cccca41, 0x7d9c7bb747ae1068, 0x7da3f8fea87156ce,
    0x7dadf57dfcaa0235, 0x7da1cd528cccca41, 0x7db3f8fea87156ce, 0x7dbdf57dfcaa0235, 0x7db451f15bc5a42e, 0x7dc3f8fea87156ce,
    0x7dcdf57dfcaa0235, 0x7dc0eef3cc7a08d1, 0x7dd0ac3dc5facec9, 0x7dd3f8fea87156ce, 0x7dddf57dfcaa0235, 0x7dee009c53148be1,
    0x7deaa8bd1a337a30, 0x7de0b75c1c655875, 0x7dfe009c53148be1, 0x7df3fe8dd3a69ba4, 0x7dfaa8bd1a337a30, 0x7e0e009c53148be1,
    0x7e00a97630602c5e, 0x7e0dfdd4bd79e976, 0x7e1e009c53148be1, 0x7e10a97630602c5e, 0x7e1fa8608f1d2119, 0x7e2e009c53148be1,
    0x7e2fab2824b7c384, 0x7e2c56108171543e, 0x7e3e009c53148be1, 0x7e37c05e1b89d2a3, 0x7e3fab2824b7c384, 0x7e42f5b32e213e61,
    0x7e4615d249e69b00, 0x7e47c05e1b89d2a3, 0x7e587b27c09ae521, 0x7e52f5b32e213e61, 0x7e50905db76cf440, 0x7e687b27c09ae521,
    0x7e65b86d775e11c1, 0x7e60905db76cf440, 0x7e787b27c09ae521, 0x7e7719ca9bfc7b71, 0x7e70905db76cf440, 0x7e87ca792e4bb049,
    0x7e80905db76cf440, 0x7e8fbf5e4a3b7ed0, 0x7e97ca792e4bb049, 0x7e9038066e4559d4, 0x7e9fbf5e4a3b7ed0, 0x7ea7f6a4d2df7d7f,
    0x7ea7ca792e4bb049, 0x7ea00bdac9b18c9e, 0x7eb7e08f009596e4, 0x7eb00bdac9b18c9e, 0x7ebfeb89eecf4c06, 0x7ec7e08f009596e4,
    0x7ec00bdac9b18c9e, 0x7ecfeb89eecf4c06, 0x7ed1e86b4070312b, 0x7eddd8b2c0bafc9d, 0x7ed00bdac9b18c9e, 0x7ee1e86b4070312b,
    0x7eedd8b2c0bafc9d, 0x7ee22aacb74de4fc, 0x7ef36bf9a50c0440, 0x7ef1e86b4070312b, 0x7efdd8b2c0bafc9d, 0x7f036bf9a50c0440,
    0x7f0d21f677920660, 0x7f01e86b4070312b, 0x7f136bf9a50c0440, 0x7f1d21f677920660, 0x7f10b5301743e5e7, 0x7f20fe7a706a83b8,
    0x7f2f8f75ac3386e8, 0x7f20b5301743e5e7, 0x7f30fe7a706a83b8, 0x7f3f8f75ac3386e8, 0x7f30b5301743e5e7, 0x7f40631aa3422396,
    0x7f4f8f75ac3386e8, 0x7f4038b1374090e0, 0x7f50156abcadf385, 0x7f5fdd2592c7b6f9, 0x7f5012ad58ac906a, 0x7f60156abcadf385,
    0x7f6fdd2592c7b6f9, 0x7f6012ad58ac906a, 0x7f70156abcadf385, 0x7f7fdd2592c7b6f9, 0x7f70014f6a088eba, 0x7f8b1c15d78e7c7c,
    0x7f80156abcadf385, 0x7f8fdd2592c7b6f9, 0x7f9b1c15d78e7c7c, 0x7f90156abcadf385, 0x7f9fdd2592c7b6f9, 0x7fa4551061aadd5d,
    0x7fab1c15d78e7c7c, 0x7fa0156abcadf385, 0x7fb4551061aadd5d, 0x7fbb1c15d78e7c7c, 0x7fb1b3c5672b85f8, 0x7fc61a3db8c8d129,
    0x7fc4551061aadd5d, 0x7fcb1c15d78e7c7c, 0x7fd61a3db8c8d129, 0x7fdce1432eac7048, 0x7fd6fcd46457cb0f,
];
