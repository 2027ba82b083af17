"""RSA keys (n, e, d, p, q) for the concrete cases."""
KEYS = [
    (0xc7f259612c8bbf7a04ee1a9dc3a8361cbbfd6a588a17ee5fb7467fc51ad149171d4ce88c830765954b51072e8083ae04edd1e2dd3e1648d964983a953e7dd4f4a84b7a76aab5cb083ce9b027956fa62469133c2b4d9f628f2d9deb0aaecc110afb71348307eb62b763fe1a0d7961929b9c6e3026c56baa4af723e23bb17bbeebb95c23247dbce99cc8cd310de71f5306a32604168095f41a976e474e215a442a6f6b9df28c31dffce4a59afc0152be20d1342cc8a90b7a31bdc3d434ba1a7c3174fe4463383c6156ae5eaa7bd6e0c582e6bffc86382dde8338e4f47057cb7c5429377c749d916fa7d7da9ece379f9f7aa80d2163d038ac6be6faa385ccc3447f,
     0x10001,
     0x2bb3dc76616ab030e6e7f6385a7e2749b38b49d5cd653aac801e302a3058e33d62a19f48ab11105287f24f7c0a09fe1cc4b076023ea2574cf0f05709aced8b00e8d20a93ea6f2ecfffa46264dc84594fa709d5c26f46719ff2ec0be63b5b8e3414ce63186ac037c4f6dda0eb26073e28b611dd8373ee3afc04b5baaaaa79ee3a2b96df8aebcadc21f00264d66446799ee59a86c6498615e478ea468128f628d27250f5a75978d7f99092a91c759133e9939db95f6207283cd979655982bf6e3f87afaec751a9162487a7ad66945b93896777e5bc0b11f9836a09070f2bddd56eef82d34be49e6fc4235c7a871f40bcb2c5a7c42c5e156e8c2b41e96b3186f4e5,
     0xd30a752b7e681079be95bb4c93c509f1e048830a25f65ea77cdd06a9b1eff85b77bac5d0d4904bc52175304f8355319e8de472becfd149148a001df95aac1ae3a6e2c1f246ff0fed0341b92f66b60cd8b59d2cd4e0940c52ae8198adfc6d53c2833e33608e7d682756aaa6cbf015aa73c5a9771b8408ac865e46fa0f88000453,
     0xf28ad91bf0675afea2176b4ddfb324f27f5ffeb0265323d9398fa0ad05e7bd6a626730001025289fcce83d4bc4bd9f7973a847b42a5f3e5d9b734fab4f1d954d3c011ae4d02b87cd72d06f0bf1bdc2c57fdd074abeda5f104389a579ba81ac3497b096753c906f4a0c476d555750203b24a5aae7d0577bf9fb81b9d493ce39a5),
    (0xa22cbda582beb49b9d2cb0ce129392f7b79f45323768374c02a053f716f08463dd0c5ef1899348af3f8de397e1385229b7744cc79c19220186107a5a39c332940f3836163472c8dba775cbd6911f52a2f2853d97e6192707d46dd4f5f069e157d3ddd3b72e4dcd91b15ed9e3a42fb60562b3d9a94e39c7774224636c60d5d174351ce7304efb279e580215018421939013b0b679d4d15421c7eef2d23d5200bc4ccca2f74faa8c84ce96d35ce1dae517decfc5e8e785e72039d4bfa7804a80f4d321599f70bfb667fb58e47ebe64df091bee065ad341dc5cdc9d8fffa11031e9352572085493c0eab3179f52f8339b55eb66b2316b04695dccbf1e25357cd6d7,
     0x10001,
     0x11e837cea147b680a253cf7809b412dbd882352d4cd1ec9d2f830d92708d8148d79d2894aa18c1c35c14aa47587e940ff82a56da09a1facfc942638837ed9655a3f29482522b44838093b0bcd20c6fdeff417822202db1d21b023fac226e468c20a05362dc318a1be6c66eefc46ee23de8feabef966c29dac0ca6cd2084543d9d04275e442d0e2f978caeb01c04485414cb623a078230ee503c6a60394d18d2984a64b56a5111fec4116d6b3017b187c1c52a25e78afaf26a05f0c412863a2614d7476563ace7563e5f7240883e08f81398c53530dae15ce13a904e116de95e0e550b2620464f7e4f45b2b371ea0a37a4f1c7d1967ff01747d6697e6faf138b9,
     0xb5b30b1996f92393f28654619bce85404fc01ec3be5eee6f585bc4a2cf19efaefbbb9b63d215ad6be2816030c27375745a25a40880be8c47201356af26c2772a8f4b838401f8b05445051cdc3eb5d3e0caf2cada7c70477979b22936f03b5ac1030dc842ced985004d3e712372074f34ff366fa9f4490118f89bdc872e9a2489,
     0xe47dc9f35a5817f1da83078339b2a442923d07564c180b97596c736d145bd52859cb1be25d7c5b2a80f618aaf52dcf37cdf01077bd2dfcaee9e72b718fae9b42640935c1f6112eda6868e643da552823612582f2a83ff4b777d2d04a28ae0aaa5b098173ead54de83b251862394a97e8044df7eca772bf0c007a96e820bd085f),
    (0xaf9aba0ab7df5b5468551d2567ef9e81e7b564a18b217ec9c38c38cd213e5b194bb564156bf15387a0692696492b7bf85c6150c5f3bf05f7908e4104de34d2175c32fc225d29b1b6d3cf5e35e1f37c3c4ce486a5bc331c81d2659f9bc704ba75009dd5b78b5cd45d9bf734eda1aeb4a95fc823545468d6f61bdc1fdb35103e192301,
     0x10001,
     0x224dcd0b1bf94f8b9128135e03cc4d001e861266f659703db4ec170a877479725b164fbb598f569c778b230517bd1d661a91ce2825620b25de00d415c1dcbaafe2397a0c75948649fdc5fc85ef7ba8750e10527706b8c280813062850c9b26c8be41d1df90c6b31258b54ce7921fab70f79ba3fc4fc4b6b1df11fcd7520377f10db9,
     0xc74661bc1d5f79fd2f756da79edc3374f78117167d454542e6c6806da3bdd07ead63c835bde529d30bf0a0b3d058dbce62afc82f2d9e84e4d9209b32156feeef95,
     0xe1976b6ee364505554916e4679f06503d988f1d06fae144df8733cf0a7c158a6ccffd6e7ff37f7974bb7387b8bcdad92be6e9e8e87bf0b54594abfc7935620babd),
    (0xa733fcb1a1cb565e2f5ee0020b0504b3508bbf335ee43c294f0ce611bc38bc93fae401a9832373561a389f05ef3b3b810b57c20699d38c20b7de77de5011f20038c63cc3cc89d7ccb0c8ff6a968c4fc19cc0506275b7c28f00b23b49a4f0a5c06a47f889d12abe8ba5ebe6a699d0ff3ec8bbd0b371742c9c82e96e0a236812da27e4e5bd38d804600115ae73828c40716f607acdd6a6738efb19459219ab8c85b62a0285bebc0b4b41eba395c4cb1fecbbcfdf669fe865a3d4566486ef1034adbe3e236616f44a6c2c6bd28c83997ea08baa7ea3bedaf22d82c540c4dd1669ec81fbeb4cb3bd154ef973de45c9d5fb1b258a5620ad675d64c76e27bb8c378391,
     0x3,
     0x11d5c23514abe040a8e492c630f64b983f3473f7d382288cf089e8c109d643e6d314e848b1d3fea63295664bb9f1d68f78ad336a8476236d4da3ad366ef0d8f5c89dadbc2378843ecb2d554565644cc625333bc63c57de23bbcebea4de64c32c6ae8f4f6cea1929e417c26418eb34e6d18d32e279ee004c23018e630de3ae34a4be948f52576e3c4057fcfd7499b91f0c4748b229ac9a5d69b18d035614fb583efd12dacceb8d04f42dfb79a55b427fa018e52adc88ba3c0693f231bb66bc08d9c409ffba0065276ce99034449c6cfa930eb1f864a44f08cd1f99f5adfea36c81ce38c5386b4265f50786fd7e19599600671902c44031d23dfdc9f23747a6f9,
     0xb9987e59fc5eebf979643cf4231050aab38de66b003e3e16e8dec45f324521d771403b2e7cbb5690e2f46dfca61223d6322ebec617fe765f751500dea0e77d9aa7108f191c5c7081efb082bdd2cb64b9d34035bf127d5ac23c72db78590492ddf3ee01717aedd11fec14548103eee7042b476cbf66a19bb04a7fd6347329ffc3,
     0xe6a15b68fd3e8118d42334fd0d6977958a0dfbfe6b45c2bc2431e13e771b24f95ca0bb232ffc13d34c05dc523b40054ebb0ad9834fccd01884917a847ff689e37e4fb875fe5c94d06be0d12e7d263f148dce0159b417484315ce2f5890de157a7f38a64c29f65c717af6713ce30c9632bdda41c2492890842a39fd9ab511ae1b),
]
