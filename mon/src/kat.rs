//! Generated by tools/gen_kat.py (OpenSSL digests of multi-gigabyte messages). Do not edit.
use crate::refimpl::Alg;
/// Lengths at which the streamed pattern is judged.
pub static CHECK: [u64; 13] = [65536, 16777219, 268435456, 536870911, 536870912, 536870969, 2147483647, 2147483648, 2147483712, 4294967295, 4294967296, 4294967297, 4294967479];
pub static BIG: [u64; 2] = [8589934597, 17179869304];
pub const SIP_KEYS: (u64, u64) = (0x123456789abcdef, 0xfedcba9876543210);
pub static STREAM: [(Alg, [&str; 15]); 6] = [
    (Alg::Sha1, ["f013c22592121b27653a7c0ba3b4a00504b158da", "23b50c1f7dd77fd6e6e53d6085e9680502c181a9", "8529710998f541f960c5860f87f3164e17b597a2", "daa68ed78e1c67743c0b2b0734f992ce30234405", "ff24c9b8a823d626315b2308de8ddd5b2adf12e6", "d258f1f90a504ed1fb0fdab0c91810a46095d428", "75e236b3e90330aae5f61e228c8901485e486716", "56217935c0365cbfee1fa8478b608fe554699e8b", "e510513f80d5cd88d7a45149b8be038371393db1", "af10f27409be0ca3319bc055f07e3c48c5f38200", "9892c963d2700e5e374dbe504cd7190561fc5806", "3d10a2640f185e7c1cf443ad4ca2b23419c0c632", "6d4f989c0f26191e59278acbfbd8911918b2dc08", "25c51a60336ea6e60af334078bd6baa30a527d84", "7d641d48e7a4adf009a89de11fae8676535d5efa"]),
    (Alg::Sha256, ["aa610e8657d6fc7a78f22a92d59743c4c4cb1cd25ed8fc8bb4bd5e5586616b96", "6bf7af3b537d172b751d2ca662b0efb13d1c77f814dec2b096da33be08f3b13d", "e24823a21fd750eea76458b1ca6a86f115db7eb567d8143df1b509c7a3795a18", "ac8aa67751b249b649f347fa16035fd7c472d78aee0bcca19a3e51dc6d71d9ec", "7382fb30a4e7ce4289180244a43074943c5207d90664181cccc0d3ff3270da3f", "def18bc2261fee2b821f01bfd90ff033fc7ff923579cd71758212817df77bab2", "678019ce9a2c51ae76d0b4b569140aab70ceaa309f1e20aa39034ca11a2a0f3f", "aae00ba6541f5af2885c53baed460063a5851078021da46f1681259a2012ebf2", "1b5bf876c85bb333e954c10a4a623c899a0057b53081587335a534bd71eed14a", "95aae25573524ea8ef94a9cedc08742a5c4ae38b49e6a25c310416d97e4ce30e", "0e493a18ece65a49502498885b49853558376beab1f061dca7a5dda9bfbcebb6", "c436cf3bb91ff9501387b66f03108ceb300c92b5b14f22d3c93ef81791a6a294", "147aa668f8cc3689f4f0c9bfcd7acc8ba44dffb73fa56eb4fe117fbc4945e22c", "fbbc0d2b4cc100644e6845f82088139b9dafc73a2fc30bb144d8f618c00b5031", "76dd16c61d2651f8346865e1733edd036cfdb86498feb3126e7f9b9cb4fa6c53"]),
    (Alg::Sha384, ["69b8f3bfe631e20c0d1ec5572c39bf5d47851257abf5e4195a5f0519136a440bda3cf41cffd77fac661d68340346b8c0", "b8cbce0fb08ed93b95d427f1c55e1788483321b314517a8ba9c5eb72b60974e68939c2ee94c5daeb07ca49f983c8b947", "d8a53b8f6d2247110e049e1fa01209f086a20607d96ab44615a5b0de709f0edde26d116690e9c04e2be19fa8e0858341", "6ea77066e9ee17ed639a24eb7e5494a40a8cf7d0318086dd2475c0ad4796d8a3d9e2a1f3aeb4e5445aa3026268adea32", "e74509d3951089a67a046589465316754673ca6ef33989ce087435b5d6c322be6624dc55ce958e5bb02204b56cb597ae", "d6a818657c1fbb1ae6c26f5bb444136c57de27babc3efa4f92143d7231277430b86d90bffde927dc422ccc3bbe4b8cfe", "d64627f9e800d4f2cecff7ffaefec47d20e03e47a504593b555d225fb6568a7128eeecbaf3a3f374a44524fab79c7fb6", "7f262e148b5d6e041981698f2f3911db3bdfdc559fc37341129da0685d67a3d64e0a7fc862928223c582e769d148ac83", "61714ce42cfa27374068c72841b93366a57b16006ab377408472827dca49637751bb544fce2196bbc01ab0eb2fb262a4", "9bfa60311c378b7923c6da3696e043f9b37359ecbd5f00835e5c3231ee66b3fd5b18bd64c8b735af6d07f094c3a2791e", "f20757b2efff1358c332e46f55ddf9e4b12fde527e8f2d4b0b8f9b085c4de3f43f8f5f714693eaa67181a87e23e4cfc6", "bdc9e37367929722b23bc515ee03fe48f8c75ffa8c6e69e07980eb40aacdbc0dfd5996b51eacedd7e4be39851f7839a9", "b953a4e2300d2b7b1832f6b49fd546599deb9600f6cbc529969022af126dd1bee0479bb7809053a651054246d0cd2902", "02a739ee84152873ffb42b020ef8d0748cf1a9148eed0432d6448f9a7839d220b4d946ce7cb56e4fbe7bd2c5993a5b6e", "c3d078beb0bab119eb8d84e897c54832d27b9c8c3db3744cef5c7c0873b295bd8f53298e48aa60d15b29000c7c78e834"]),
    (Alg::Sha512, ["bc028723107e76f6b934aee018319a5f5b6b1ff8e563a2c1f2b385a3ae59641da712ae74862a50ec4edb67631c5f1a98dbe493d62bfabd36a8aa751eab19d6e3", "3314e896d752088ff005d6dc524a16d4443df7054a9946cd552394f562398faffa7d949cd7e416fe1a15d2915e9d1bedb2cb9930916c0b62c30faea4b761fc4f", "f80c55d5c0a19105a8b907f0deeb0a7d8daba3f52d75bd37b0e997f9b67900c53ee8b80cadc3d01bcbf1ab32623c3ed3b906c86d4c09f1aa49b472f382175027", "cf2f4b09058ce6e44b23e5e1782f7feef7125c3643e7e371bf4885c52dc26b793d5eb3f061d19f55046757ba88ebf1afafada40a2aae329d118f5a9788a11fcb", "c0475e05cbf6bfd69ae06b21f13702b84b5817fc92998398da984b947e39b835a5d708dd74aed523866ebd9ee6c4c309853759b11447ae6db483ff987738db32", "500e660245aeac6fe6b032cd68fffc3d0f0224aff33a16450f164a9e633a00e709276ed97f6afd8913a722418e280981ada525b8f560638976bffcd00174097a", "692bb52e61edc721d4c4af9c3ae1307f5e34a0767be11e3cb2fcffb142e02eeeb93c33281af7fe1e965aea40a0f72bc36f5019a9e332d642814219d384668d1d", "266920c716b511585b07363b00d82ad66d244940082b5164f26d87a841b37b809ef5941ccb12d708005d8721c4cb931f8a1d686346fe6f947c9289f4db450c39", "6bcc93543d1c1069e93f0d7afd13ace790ac501b725cc1bbb00e3d41529f9042b3f1c201bb28720c54089d7708e3d4a080a1e84e7891bc08233ec76f0a78f24c", "a0a57dcc94dcd2528869f438d9b2ccda7a00d6b435953aadd3ecf9166e1fcffed45e32ef61be57e2d17478abed567a6180dc6ee98cbc23e9bcd6a7df889a6a23", "590c156c6018cb50e5faf74976634af5a43ced8eab6cc4983208f81586d49eb037da9e6ae21edbc9ff56586b983d33256fcbcf75022b937167449c11727be1e8", "97a70b9ede41f49cc4f83727a57f3166a51e6daaf0bf931faddaa4c1b0555dd9772e506c37b5314300c8b4ae5142084999cbf303a85691b7fa24436e45f74df1", "25c301170bf98b139f7c80226e7500a31e0ba849bb7b5ac68ee76131d408731ba744803516a04e1851d731a6effd501c3e6655235b842bb6107328f35a35eb5a", "2753dda3a13e5b8ba452e43ab4d3c067f507ff50a1ac462dc7eb8ddc70a7162b1820deb7aab5b788ffbb92101fa04522cc4a79a0a82177b84b08730208284184", "17491f8a5bd7970b00e8fdb5cea6697009ff2d88ff90f43bdb8c412bdeb7fd4cd3d84fe5dfd40fbf145555b4173f78532949931dfaad2464901831f9f58ddd8b"]),
    (Alg::Sha512_256, ["2fb9402c2cc120dfe924e72727f8dc428dfa4fba9ee44b7a97300bc155b3e467", "d04f70831b052b694dfcaf47278201bc2cd96cb6d7003654de2c872951aff6e8", "92b57b6fdb0cfab5604c1fb42faf1b217c359ceb9675343c2f4ab658b8fe2480", "9df89d10cf432f76ca621e4e92a388e978096a72d6a188abd213173581cd3f75", "724347ad5e62053b9e5ac94f73703318b45d0b597056f4bd1bd1198d2a602591", "84cddad1684ffc8f5ecf809029d65269553335f0c7b3f52d3be5f5acd4ae0b79", "eece8f0821296f81410f83984a5604063bc30a7c226cdd5428a5077af046ed41", "751b801b0a2200738408c2dc27f0a93b4fda8230b09d87746f18dcdea6b6b3e6", "e2e54386322745db382a19092f32e672e233434a887628329ddc3052a423c30e", "0583f8891baf679fc0aac4dbfa094f3acaa0c79fa32a454a41c8db3e129b070f", "e35962adcaf2d3999328895e3c0854aa13e2fb8e240ea366fafce12bff12ea12", "f62cac3beaf40e6a36f9f4c527655b67f44db9b6d658f15a0385bf938b39079d", "a940488bcedeb64ab6f5f5b697e341f61f199e276d3657f939c85ac2e7f382c1", "e50266c4ce22dd217b0852dd9f7634ba27c29f98c9e898b30f71d2f7c3ad261a", "d5287224e8ca4bc5f9c34062cc99681ca737daab4d3f94869331a2d115c14bcd"]),
    (Alg::Ripemd160, ["48234fddae6844e34cb42ecea6dd35c6fe01128f", "c7232c5e76a4f2ffed0f2c9fb6f9e52e11e97264", "92f9ec82ed772739deb0e31b6c086c6d7e0e5c14", "e1024d9beff1e7e9f09b744f63942be77e9a9f77", "869b9e3488ccffa0f642ee7b06493f0bcb3853a4", "251b7dc880c13ae9f438a29d4f2600562ed2b210", "accd4ab2a4404acb2fbcb5e038c1ea21534b7ccc", "f44d5d0e0f014b97f499bf5fd1a7e23b7cac4597", "12c06ef9f4d9af442283472e84e49e5d997f579d", "299e74595edc41ce8a3c49ec7160e7060e2d1bc3", "f4fe8c1a9ea6c0109037954cd0684bee50dbab4f", "ae3290e540125f903885c07a132b888b70427ccd", "250f1f16d008d13a36b0a35440ec8698c7d378e2", "864d5e74f6c02d34c841bcee0c1bffdc5a108a8e", "8a9b239a92bcc4ea176dcfcbf82f91e5eea38d30"]),
];
pub static STREAM_SIP: [&str; 15] = ["0e560fd95b3580c2", "36a177ae696f08d7", "09855dd341fe1b46", "af00925cee22ce2e", "9a4fbc533401cd20", "7dcc38cdf6e69283", "ad29f170f0464b25", "79563fa69ba5b83a", "542706d25664a6f7", "ebf6b1a27ff6232f", "85240fd9c64a5980", "4971a485f7613556", "d8333a29af597dbe", "40f5aa6e7a9cc239", "635c2c6e76ac1aa6"];
/// 2^32 + 7 zero bytes.
pub static ZERO_2_32_7: [(Alg, &str); 6] = [
    (Alg::Sha1, "75e7b52b97f5e25f68bdc9974e3d7dc1e3c9778d"),
    (Alg::Sha256, "8bfc028943c6cd8d43e54f9b91c380e0ce43eea4b54c4c567b33069385c2c7b9"),
    (Alg::Sha384, "52e8aff02f75e244db85a9e0a1594ad95ef7aed4ad73642a9c16a9fe2dc6c8f0729276ec5ab41ac51ed36448016c8170"),
    (Alg::Sha512, "73bcbc5f8397be30df3c1f72d00251015d58890869014486770435b79d702cccc734279a8aa056f39161ab77a62e619e92e26a8ada94ff39bd1b2059aafee535"),
    (Alg::Sha512_256, "41cffec6039f4c3adbbb52da94133b854ebd6c85256c756cec07ab5f11281ade"),
    (Alg::Ripemd160, "465697491724f8f84301ea3a5231727aae76260d"),
];
pub static ZERO_2_32_7_SIP: &str = "3be6169714490ee0";
pub static ZERO_2_29_9_SHA256: [u8; 32] = [0x04, 0xc7, 0xbb, 0xba, 0x5a, 0xfa, 0x7b, 0x28, 0xc9, 0x0e, 0xea, 0x63, 0xd1, 0xbb, 0x84, 0x0f, 0x1d, 0xdc, 0xe5, 0x76, 0xeb, 0xdc, 0x49, 0x0e, 0x7f, 0xb1, 0xe5, 0x3e, 0x34, 0x63, 0xe9, 0xdb];
