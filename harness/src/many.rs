// 260 fields: the field's number must matter beyond one byte
#[derive(Trackable, Default)]
pub struct Many {
    pub f0: u8,
    pub f1: u8,
    pub f2: u8,
    pub f3: u8,
    pub f4: u8,
    pub f5: u8,
    pub f6: u8,
    pub f7: u8,
    pub f8: u8,
    pub f9: u8,
    pub f10: u8,
    pub f11: u8,
    pub f12: u8,
    pub f13: u8,
    pub f14: u8,
    pub f15: u8,
    pub f16: u8,
    pub f17: u8,
    pub f18: u8,
    pub f19: u8,
    pub f20: u8,
    pub f21: u8,
    pub f22: u8,
    pub f23: u8,
    pub f24: u8,
    pub f25: u8,
    pub f26: u8,
    pub f27: u8,
    pub f28: u8,
    pub f29: u8,
    pub f30: u8,
    pub f31: u8,
    pub f32: u8,
    pub f33: u8,
    pub f34: u8,
    pub f35: u8,
    pub f36: u8,
    pub f37: u8,
    pub f38: u8,
    pub f39: u8,
    pub f40: u8,
    pub f41: u8,
    pub f42: u8,
    pub f43: u8,
    pub f44: u8,
    pub f45: u8,
    pub f46: u8,
    pub f47: u8,
    pub f48: u8,
    pub f49: u8,
    pub f50: u8,
    pub f51: u8,
    pub f52: u8,
    pub f53: u8,
    pub f54: u8,
    pub f55: u8,
    pub f56: u8,
    pub f57: u8,
    pub f58: u8,
    pub f59: u8,
    pub f60: u8,
    pub f61: u8,
    pub f62: u8,
    pub f63: u8,
    pub f64: u8,
    pub f65: u8,
    pub f66: u8,
    pub f67: u8,
    pub f68: u8,
    pub f69: u8,
    pub f70: u8,
    pub f71: u8,
    pub f72: u8,
    pub f73: u8,
    pub f74: u8,
    pub f75: u8,
    pub f76: u8,
    pub f77: u8,
    pub f78: u8,
    pub f79: u8,
    pub f80: u8,
    pub f81: u8,
    pub f82: u8,
    pub f83: u8,
    pub f84: u8,
    pub f85: u8,
    pub f86: u8,
    pub f87: u8,
    pub f88: u8,
    pub f89: u8,
    pub f90: u8,
    pub f91: u8,
    pub f92: u8,
    pub f93: u8,
    pub f94: u8,
    pub f95: u8,
    pub f96: u8,
    pub f97: u8,
    pub f98: u8,
    pub f99: u8,
    pub f100: u8,
    pub f101: u8,
    pub f102: u8,
    pub f103: u8,
    pub f104: u8,
    pub f105: u8,
    pub f106: u8,
    pub f107: u8,
    pub f108: u8,
    pub f109: u8,
    pub f110: u8,
    pub f111: u8,
    pub f112: u8,
    pub f113: u8,
    pub f114: u8,
    pub f115: u8,
    pub f116: u8,
    pub f117: u8,
    pub f118: u8,
    pub f119: u8,
    pub f120: u8,
    pub f121: u8,
    pub f122: u8,
    pub f123: u8,
    pub f124: u8,
    pub f125: u8,
    pub f126: u8,
    pub f127: u8,
    pub f128: u8,
    pub f129: u8,
    pub f130: u8,
    pub f131: u8,
    pub f132: u8,
    pub f133: u8,
    pub f134: u8,
    pub f135: u8,
    pub f136: u8,
    pub f137: u8,
    pub f138: u8,
    pub f139: u8,
    pub f140: u8,
    pub f141: u8,
    pub f142: u8,
    pub f143: u8,
    pub f144: u8,
    pub f145: u8,
    pub f146: u8,
    pub f147: u8,
    pub f148: u8,
    pub f149: u8,
    pub f150: u8,
    pub f151: u8,
    pub f152: u8,
    pub f153: u8,
    pub f154: u8,
    pub f155: u8,
    pub f156: u8,
    pub f157: u8,
    pub f158: u8,
    pub f159: u8,
    pub f160: u8,
    pub f161: u8,
    pub f162: u8,
    pub f163: u8,
    pub f164: u8,
    pub f165: u8,
    pub f166: u8,
    pub f167: u8,
    pub f168: u8,
    pub f169: u8,
    pub f170: u8,
    pub f171: u8,
    pub f172: u8,
    pub f173: u8,
    pub f174: u8,
    pub f175: u8,
    pub f176: u8,
    pub f177: u8,
    pub f178: u8,
    pub f179: u8,
    pub f180: u8,
    pub f181: u8,
    pub f182: u8,
    pub f183: u8,
    pub f184: u8,
    pub f185: u8,
    pub f186: u8,
    pub f187: u8,
    pub f188: u8,
    pub f189: u8,
    pub f190: u8,
    pub f191: u8,
    pub f192: u8,
    pub f193: u8,
    pub f194: u8,
    pub f195: u8,
    pub f196: u8,
    pub f197: u8,
    pub f198: u8,
    pub f199: u8,
    pub f200: u8,
    pub f201: u8,
    pub f202: u8,
    pub f203: u8,
    pub f204: u8,
    pub f205: u8,
    pub f206: u8,
    pub f207: u8,
    pub f208: u8,
    pub f209: u8,
    pub f210: u8,
    pub f211: u8,
    pub f212: u8,
    pub f213: u8,
    pub f214: u8,
    pub f215: u8,
    pub f216: u8,
    pub f217: u8,
    pub f218: u8,
    pub f219: u8,
    pub f220: u8,
    pub f221: u8,
    pub f222: u8,
    pub f223: u8,
    pub f224: u8,
    pub f225: u8,
    pub f226: u8,
    pub f227: u8,
    pub f228: u8,
    pub f229: u8,
    pub f230: u8,
    pub f231: u8,
    pub f232: u8,
    pub f233: u8,
    pub f234: u8,
    pub f235: u8,
    pub f236: u8,
    pub f237: u8,
    pub f238: u8,
    pub f239: u8,
    pub f240: u8,
    pub f241: u8,
    pub f242: u8,
    pub f243: u8,
    pub f244: u8,
    pub f245: u8,
    pub f246: u8,
    pub f247: u8,
    pub f248: u8,
    pub f249: u8,
    pub f250: u8,
    pub f251: u8,
    pub f252: u8,
    pub f253: u8,
    pub f254: u8,
    pub f255: u8,
    pub f256: u8,
    pub f257: u8,
    pub f258: u8,
    pub f259: u8,
}
pub fn many_sum(m: &Many) -> u32 {
    [m.f0, m.f1, m.f2, m.f3, m.f4, m.f5, m.f6, m.f7, m.f8, m.f9, m.f10, m.f11, m.f12, m.f13, m.f14, m.f15, m.f16, m.f17, m.f18, m.f19, m.f20, m.f21, m.f22, m.f23, m.f24, m.f25, m.f26, m.f27, m.f28, m.f29, m.f30, m.f31, m.f32, m.f33, m.f34, m.f35, m.f36, m.f37, m.f38, m.f39, m.f40, m.f41, m.f42, m.f43, m.f44, m.f45, m.f46, m.f47, m.f48, m.f49, m.f50, m.f51, m.f52, m.f53, m.f54, m.f55, m.f56, m.f57, m.f58, m.f59, m.f60, m.f61, m.f62, m.f63, m.f64, m.f65, m.f66, m.f67, m.f68, m.f69, m.f70, m.f71, m.f72, m.f73, m.f74, m.f75, m.f76, m.f77, m.f78, m.f79, m.f80, m.f81, m.f82, m.f83, m.f84, m.f85, m.f86, m.f87, m.f88, m.f89, m.f90, m.f91, m.f92, m.f93, m.f94, m.f95, m.f96, m.f97, m.f98, m.f99, m.f100, m.f101, m.f102, m.f103, m.f104, m.f105, m.f106, m.f107, m.f108, m.f109, m.f110, m.f111, m.f112, m.f113, m.f114, m.f115, m.f116, m.f117, m.f118, m.f119, m.f120, m.f121, m.f122, m.f123, m.f124, m.f125, m.f126, m.f127, m.f128, m.f129, m.f130, m.f131, m.f132, m.f133, m.f134, m.f135, m.f136, m.f137, m.f138, m.f139, m.f140, m.f141, m.f142, m.f143, m.f144, m.f145, m.f146, m.f147, m.f148, m.f149, m.f150, m.f151, m.f152, m.f153, m.f154, m.f155, m.f156, m.f157, m.f158, m.f159, m.f160, m.f161, m.f162, m.f163, m.f164, m.f165, m.f166, m.f167, m.f168, m.f169, m.f170, m.f171, m.f172, m.f173, m.f174, m.f175, m.f176, m.f177, m.f178, m.f179, m.f180, m.f181, m.f182, m.f183, m.f184, m.f185, m.f186, m.f187, m.f188, m.f189, m.f190, m.f191, m.f192, m.f193, m.f194, m.f195, m.f196, m.f197, m.f198, m.f199, m.f200, m.f201, m.f202, m.f203, m.f204, m.f205, m.f206, m.f207, m.f208, m.f209, m.f210, m.f211, m.f212, m.f213, m.f214, m.f215, m.f216, m.f217, m.f218, m.f219, m.f220, m.f221, m.f222, m.f223, m.f224, m.f225, m.f226, m.f227, m.f228, m.f229, m.f230, m.f231, m.f232, m.f233, m.f234, m.f235, m.f236, m.f237, m.f238, m.f239, m.f240, m.f241, m.f242, m.f243, m.f244, m.f245, m.f246, m.f247, m.f248, m.f249, m.f250, m.f251, m.f252, m.f253, m.f254, m.f255, m.f256, m.f257, m.f258, m.f259].iter().map(|v| *v as u32).sum()
}
pub const MANY: &[usize] = &[0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 258, 259];
pub fn many_at<'s>(store: &'s Store<Siblings>, i: usize) -> LeafPath<'s> {
    let m = store.build_path().many();
    match i {
        0 => Rc::new(m.f0().into_path()),
        1 => Rc::new(m.f1().into_path()),
        2 => Rc::new(m.f2().into_path()),
        126 => Rc::new(m.f126().into_path()),
        127 => Rc::new(m.f127().into_path()),
        128 => Rc::new(m.f128().into_path()),
        129 => Rc::new(m.f129().into_path()),
        254 => Rc::new(m.f254().into_path()),
        255 => Rc::new(m.f255().into_path()),
        256 => Rc::new(m.f256().into_path()),
        257 => Rc::new(m.f257().into_path()),
        258 => Rc::new(m.f258().into_path()),
        259 => Rc::new(m.f259().into_path()),
        _ => unreachable!(),
    }
}
