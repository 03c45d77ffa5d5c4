//@@include props/C10/spec.inc
use crate::pi::*;
struct Own { pi: core::mem::ManuallyDrop<opj_pi_iterator_t>, comps: [opj_pi_comp_t; 2], res: [[opj_pi_resolution_t; MR]; 2], inc: [i16; MAXP + 4],
    cp: opj_cp_t, tcp: opj_tcp_t, tccp: [opj_tccp_t; 2], img: core::mem::ManuallyDrop<opj_image_t>, ic: [core::mem::ManuallyDrop<opj_image_comp_t>; 2] }
/// coding parameters of an encode of tile `t` in progression `prg`, tile-parts split at `flag`
fn encode_parts(t: &Tile, prg: i32, flag: u8) {
    let want = spec(t, prg);
    let mut o: Own = zi();
    let mut mp = 0;
    let mut c = 0;
    while c < t.nc {
        o.comps[c].dx = t.c[c].dx; o.comps[c].dy = t.c[c].dy; o.comps[c].numresolutions = t.c[c].nr;
        o.comps[c].resolutions = core::ptr::addr_of_mut!(o.res[c]) as *mut opj_pi_resolution_t;
        o.tccp[c].numresolutions = t.c[c].nr;
        o.ic[c].dx = t.c[c].dx; o.ic[c].dy = t.c[c].dy;
        let mut r = 0;
        while r < t.c[c].nr {
            let (w, h) = nprec(t, c, r);
            o.res[c][r as usize] = opj_pi_resolution_t { pdx: t.c[c].pd[r as usize].0, pdy: t.c[c].pd[r as usize].1, pw: w, ph: h };
            o.tccp[c].prcw[r as usize] = t.c[c].pd[r as usize].0;
            o.tccp[c].prch[r as usize] = t.c[c].pd[r as usize].1;
            if w * h > mp { mp = w * h; }
            r += 1;
        }
        c += 1;
    }
    o.img.x0 = t.x0; o.img.y0 = t.y0; o.img.x1 = t.x1; o.img.y1 = t.y1;
    o.img.numcomps = t.nc as u32; o.img.comps = core::ptr::addr_of_mut!(o.ic) as *mut opj_image_comp_t;
    o.cp.tw = 1; o.cp.th = 1; o.cp.tdx = t.x1; o.cp.tdy = t.y1;
    o.cp.tcps = core::ptr::addr_of_mut!(o.tcp);
    o.tcp.tccps = core::ptr::addr_of_mut!(o.tccp) as *mut opj_tccp_t;
    o.tcp.prg = prg; o.tcp.numlayers = t.lay;
    o.cp.m_specific_param.m_enc.m_tp_on = flag != 0;
    o.cp.m_specific_param.m_enc.m_tp_flag = flag;
    let p = &mut o.pi;
    p.tp_on = (flag != 0) as u8;
    p.comps = core::ptr::addr_of_mut!(o.comps) as *mut opj_pi_comp_t;
    p.numcomps = t.nc as u32;
    p.include = core::ptr::addr_of_mut!(o.inc) as *mut i16;
    p.step_p = 1; p.step_c = mp; p.step_r = mp * t.nc as u32; p.step_l = p.step_r * nres(t);
    p.include_size = p.step_l * t.lay;
    p.tx0 = t.x0; p.ty0 = t.y0; p.tx1 = t.x1; p.ty1 = t.y1;
    let cp = core::ptr::addr_of_mut!(o.cp);
    let pi: *mut opj_pi_iterator_t = &mut *o.pi;
    let mut k = 0;
    unsafe {
        opj_pi_update_encoding_parameters(&*o.img, cp, 0);
        let n = opj_j2k_get_num_tp(cp, 0, 0);
        let pos = o.cp.m_specific_param.m_enc.m_tp_pos;
        assert!(flag != 0 || n == 1);
        let mut tp = 0;
        while tp < n {
            opj_pi_create_encode(pi, cp, 0, 0, tp, pos, FINAL_PASS);
            while opj_pi_next(pi) == 1 {
                assert!(k < want.n);
                assert!((o.pi.layno, o.pi.resno, o.pi.compno, o.pi.precno) == want.p[k]);
                k += 1;
            }
            tp += 1;
        }
    }
    assert!(k == want.n);
    kani::cover!(k == want.n);
}
const fn tc(dx: u32, dy: u32, nr: u32, pd: [(u32, u32); MR]) -> Tc { Tc { dx, dy, nr, pd } }
const N: Tc = tc(1, 1, 1, [(0, 0); MR]);
// precinct shapes that differ between resolutions, odd origin; two components subsampled by 2 and 3
const E0: Tile = Tile { x0: 5, y0: 3, x1: 7, y1: 6, lay: 2, nc: 1, c: [tc(1, 1, 2, [(0, 2), (2, 1), (0, 0)]), N] };
const E1: Tile = Tile { x0: 1, y0: 0, x1: 5, y1: 1, lay: 1, nc: 2, c: [tc(2, 1, 1, [(0, 0), (0, 0), (0, 0)]), tc(3, 1, 2, [(0, 1), (1, 1), (0, 0)])] };
macro_rules! parts { ($n:ident, $t:ident, $p:expr, $($f:expr)*) => {
    #[kani::proof]
    #[kani::unwind(40)]
    fn $n() { $(encode_parts(&$t, $p, $f);)* }
} }
//@ parts_lrcp_a: bounded(one 2x3 tile with unequal precincts, split by none, R, L, P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (LRCP)
parts!(parts_lrcp_a, E0, 0, 0 b'R' b'L' b'P');
//@ parts_lrcp_c: bounded(one 4x1 tile, components subsampled by 2 and 3, split by C, P, R) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (LRCP)
parts!(parts_lrcp_c, E1, 0, b'C' b'P' b'R');
//@ parts_rlcp_a: bounded(one 2x3 tile with unequal precincts, split by none, R, L, P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (RLCP)
parts!(parts_rlcp_a, E0, 1, 0 b'R' b'L' b'P');
//@ parts_rlcp_c: bounded(one 4x1 tile, components subsampled by 2 and 3, split by C, P, R) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (RLCP)
parts!(parts_rlcp_c, E1, 1, b'C' b'P' b'R');
//@ parts_rpcl_a: bounded(one 2x3 tile with unequal precincts, split by R, L) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (RPCL)
parts!(parts_rpcl_a, E0, 2, b'R' b'L');
//@ parts_rpcl_b: bounded(one 2x3 tile with unequal precincts, split by P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (RPCL)
parts!(parts_rpcl_b, E0, 2, b'P');
//@ parts_rpcl_c: bounded(one 4x1 tile, components subsampled by 2 and 3, split by C, P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (RPCL)
parts!(parts_rpcl_c, E1, 2, b'C' b'P');
//@ parts_pcrl_a: bounded(one 2x3 tile with unequal precincts, split by R, L) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (PCRL)
parts!(parts_pcrl_a, E0, 3, b'R' b'L');
//@ parts_pcrl_b: bounded(one 2x3 tile with unequal precincts, split by P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (PCRL)
parts!(parts_pcrl_b, E0, 3, b'P');
//@ parts_pcrl_c: bounded(one 4x1 tile, components subsampled by 2 and 3, split by C, P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (PCRL)
parts!(parts_pcrl_c, E1, 3, b'C' b'P');
//@ parts_cprl_a: bounded(one 2x3 tile with unequal precincts, split by R, L) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (CPRL)
parts!(parts_cprl_a, E0, 4, b'R' b'L');
//@ parts_cprl_b: bounded(one 2x3 tile with unequal precincts, split by P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (CPRL)
parts!(parts_cprl_b, E0, 4, b'P');
//@ parts_cprl_c: bounded(one 4x1 tile, components subsampled by 2 and 3, split by C, P) | fns=j2k::opj_j2k_get_num_tp;pi::opj_pi_create_encode,opj_pi_update_encoding_parameters,opj_get_encoding_parameters,opj_pi_check_next_level,opj_pi_next | what=the tile-parts together carry every packet once in the order a decoder expects (CPRL)
parts!(parts_cprl_c, E1, 4, b'C' b'P');
