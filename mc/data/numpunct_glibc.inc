// LC_NUMERIC of glibc 2.39 (decimal_point, thousands_sep, grouping), made from /usr/share/i18n/locales
X(aa_DJ, 0x2E, 0x0, "")
X(aa_ER, 0x2E, 0x0, "")
X(aa_ET, 0x2E, 0x2C, "3")
X(af_ZA, 0x2E, 0x2C, "3")
X(agr_PE, 0x2C, 0x2E, "3")
X(ak_GH, 0x2E, 0x2C, "3")
X(am_ET, 0x2E, 0x2C, "3")
X(an_ES, 0x2C, 0x2E, "3")
X(anp_IN, 0x2E, 0x2C, "3")
X(ar_AE, 0x2E, 0x2C, "3")
X(ar_BH, 0x2E, 0x2C, "3")
X(ar_DZ, 0x2E, 0x2C, "3")
X(ar_EG, 0x2E, 0x2C, "3")
X(ar_IN, 0x2E, 0x2C, "3")
X(ar_IQ, 0x2E, 0x2C, "3")
X(ar_JO, 0x2E, 0x2C, "3")
X(ar_KW, 0x2E, 0x2C, "3")
X(ar_LB, 0x2E, 0x2C, "3")
X(ar_LY, 0x2E, 0x2C, "3")
X(ar_MA, 0x2E, 0x2C, "3")
X(ar_OM, 0x2E, 0x2C, "3")
X(ar_QA, 0x2E, 0x2C, "3")
X(ar_SA, 0x2E, 0x0, "")
X(ar_SD, 0x2E, 0x2C, "3")
X(ar_SS, 0x2E, 0x2C, "3")
X(ar_SY, 0x2E, 0x2C, "3")
X(ar_TN, 0x2E, 0x2C, "3")
X(ar_YE, 0x2E, 0x2C, "3")
X(as_IN, 0x2E, 0x2C, "3;2")
X(ast_ES, 0x2C, 0x2E, "3")
X(ayc_PE, 0x2C, 0x2E, "3")
X(az_AZ, 0x2C, 0x2E, "3")
X(az_IR, 0x2E, 0x2C, "3")
X(be_BY, 0x2C, 0x2E, "3")
X(bem_ZM, 0x2E, 0x2C, "3")
X(ber_DZ, 0x2E, 0x2C, "3")
X(ber_MA, 0x2E, 0x2C, "3")
X(bhb_IN, 0x2E, 0x2C, "3")
X(bho_IN, 0x2E, 0x2C, "3")
X(bho_NP, 0x2E, 0x2C, "3")
X(bi_VU, 0x2E, 0x2C, "3")
X(bn_BD, 0x2E, 0x2C, "3;2")
X(bn_IN, 0x2E, 0x2C, "3;2")
X(bo_CN, 0x2E, 0x2C, "3")
X(bo_IN, 0x2E, 0x2C, "3")
X(br_FR, 0x2C, 0x202F, "3")
X(brx_IN, 0x2E, 0x2C, "3")
X(bs_BA, 0x2C, 0x0, "")
X(byn_ER, 0x2E, 0x0, "")
X(C, 0x2E, 0x0, "")
X(ce_RU, 0x2C, 0x202F, "3")
X(chr_US, 0x2E, 0x2C, "3")
X(ckb_IQ, 0x2E, 0x2C, "3")
X(cmn_TW, 0x2E, 0x2C, "4")
X(crh_UA, 0x2C, 0x2E, "3")
X(csb_PL, 0x2C, 0x202F, "3")
X(cs_CZ, 0x2C, 0x202F, "3")
X(cv_RU, 0x2C, 0x202F, "3")
X(cy_GB, 0x2E, 0x2C, "3")
X(da_DK, 0x2C, 0x2E, "3")
X(de_AT, 0x2C, 0x2E, "3")
X(de_BE, 0x2C, 0x2E, "3")
X(de_DE, 0x2C, 0x2E, "3")
X(de_IT, 0x2C, 0x2E, "3")
X(de_LU, 0x2C, 0x2E, "3")
X(doi_IN, 0x2E, 0x2C, "3")
X(dv_MV, 0x2E, 0x2C, "3")
X(dz_BT, 0x2E, 0x2C, "3;2")
X(el_CY, 0x2C, 0x0, "")
X(el_GR, 0x2C, 0x0, "")
X(en_AG, 0x2E, 0x2C, "3")
X(en_AU, 0x2E, 0x2C, "3")
X(en_BW, 0x2E, 0x2C, "3")
X(en_CA, 0x2E, 0x2C, "3")
X(en_DK, 0x2C, 0x2E, "3")
X(en_GB, 0x2E, 0x2C, "3")
X(en_HK, 0x2E, 0x2C, "3")
X(en_IE, 0x2E, 0x2C, "3")
X(en_IL, 0x2E, 0x2C, "3")
X(en_IN, 0x2E, 0x2C, "3;2")
X(en_NG, 0x2E, 0x2C, "3")
X(en_NZ, 0x2E, 0x2C, "3")
X(en_PH, 0x2E, 0x2C, "3")
X(en_SC, 0x2E, 0x2C, "3")
X(en_SG, 0x2E, 0x2C, "3")
X(en_US, 0x2E, 0x2C, "3")
X(en_ZA, 0x2E, 0x2C, "3")
X(en_ZM, 0x2E, 0x2C, "3")
X(en_ZW, 0x2E, 0x2C, "3")
X(eo, 0x2C, 0x0, "")
X(eo_US, 0x2E, 0x2C, "3")
X(es_AR, 0x2C, 0x2E, "3")
X(es_BO, 0x2C, 0x2E, "3")
X(es_CL, 0x2C, 0x2E, "3")
X(es_CO, 0x2C, 0x2E, "3")
X(es_CR, 0x2C, 0x202F, "3")
X(es_CU, 0x2C, 0x0, "")
X(es_DO, 0x2E, 0x2C, "3")
X(es_EC, 0x2C, 0x2E, "3")
X(es_ES, 0x2C, 0x2E, "3")
X(es_GT, 0x2E, 0x2C, "3")
X(es_HN, 0x2E, 0x2C, "3")
X(es_MX, 0x2E, 0x202F, "3")
X(es_NI, 0x2E, 0x2C, "3")
X(es_PA, 0x2E, 0x2C, "3")
X(es_PE, 0x2C, 0x2E, "3")
X(es_PR, 0x2E, 0x2C, "3")
X(es_PY, 0x2C, 0x2E, "3")
X(es_SV, 0x2E, 0x2C, "3")
X(es_US, 0x2E, 0x2C, "3")
X(es_UY, 0x2C, 0x2E, "3")
X(es_VE, 0x2C, 0x2E, "3")
X(et_EE, 0x2C, 0x202F, "3")
X(eu_ES, 0x2C, 0x2E, "3")
X(eu_FR, 0x2C, 0x202F, "3")
X(fa_IR, 0x2E, 0x2C, "3")
X(ff_SN, 0x2C, 0x2E, "3")
X(fi_FI, 0x2C, 0x202F, "3")
X(fil_PH, 0x2E, 0x2C, "3")
X(fo_FO, 0x2C, 0x2E, "3")
X(fr_BE, 0x2C, 0x2E, "3")
X(fr_CA, 0x2C, 0x202F, "3")
X(fr_FR, 0x2C, 0x202F, "3")
X(fr_LU, 0x2C, 0x202F, "3")
X(fur_IT, 0x2C, 0x2E, "3")
X(fy_DE, 0x2C, 0x2E, "3")
X(ga_IE, 0x2E, 0x2C, "3")
X(gd_GB, 0x2E, 0x2C, "3")
X(gez_ER, 0x2E, 0x0, "")
X(gez_ET, 0x2E, 0x2C, "3")
X(gl_ES, 0x2C, 0x0, "")
X(gu_IN, 0x2E, 0x2C, "3")
X(gv_GB, 0x2E, 0x2C, "3")
X(hak_TW, 0x2E, 0x2C, "4")
X(ha_NG, 0x2E, 0x2C, "3")
X(he_IL, 0x2E, 0x2C, "3")
X(hif_FJ, 0x2E, 0x2C, "3")
X(hi_IN, 0x2E, 0x2C, "3")
X(hne_IN, 0x2E, 0x2C, "3")
X(hsb_DE, 0x2C, 0x2E, "3")
X(ht_HT, 0x2C, 0x202F, "3")
X(hu_HU, 0x2C, 0x2E, "3")
X(hy_AM, 0x2E, 0x2C, "3")
X(ia_FR, 0x2C, 0x202F, "3")
X(id_ID, 0x2C, 0x2E, "3")
X(ig_NG, 0x2E, 0x2C, "3")
X(ik_CA, 0x2E, 0x2C, "3")
X(is_IS, 0x2C, 0x2E, "3")
X(it_IT, 0x2C, 0x2E, "3")
X(iu_CA, 0x2E, 0x2C, "3")
X(ja_JP, 0x2E, 0x2C, "3")
X(ka_GE, 0x2C, 0x2E, "3")
X(kk_KZ, 0x2C, 0x202F, "3")
X(kl_GL, 0x2C, 0x2E, "3")
X(km_KH, 0x2E, 0x2C, "3")
X(kn_IN, 0x2E, 0x2C, "3")
X(kok_IN, 0x2E, 0x2C, "3")
X(ko_KR, 0x2E, 0x2C, "3")
X(ks_IN, 0x2E, 0x2C, "3")
X(ku_TR, 0x2C, 0x2E, "3")
X(kw_GB, 0x2E, 0x2C, "3")
X(ky_KG, 0x2C, 0x202F, "3")
X(lb_LU, 0x2C, 0x2E, "3")
X(lg_UG, 0x2E, 0x2C, "3")
X(li_BE, 0x2C, 0x2E, "3")
X(lij_IT, 0x2C, 0x2E, "3")
X(lo_LA, 0x2E, 0x2C, "3")
X(lt_LT, 0x2C, 0x2E, "3")
X(lv_LV, 0x2C, 0x202F, "3")
X(lzh_TW, 0x2E, 0x2C, "4")
X(mag_IN, 0x2E, 0x2C, "3")
X(mai_IN, 0x2E, 0x2C, "3")
X(mai_NP, 0x2E, 0x2C, "3")
X(mfe_MU, 0x2E, 0x202F, "3")
X(mg_MG, 0x2C, 0x0, "")
X(mhr_RU, 0x2C, 0x202F, "3")
X(mi_NZ, 0x2E, 0x2C, "3")
X(miq_NI, 0x2E, 0x2C, "3")
X(mjw_IN, 0x2E, 0x2C, "3;2")
X(mk_MK, 0x2C, 0x202F, "3")
X(ml_IN, 0x2E, 0x2C, "3;2")
X(mni_IN, 0x2E, 0x2C, "3;2")
X(mn_MN, 0x2C, 0x2E, "3")
X(mr_IN, 0x2E, 0x2C, "3")
X(ms_MY, 0x2E, 0x2C, "3")
X(mt_MT, 0x2E, 0x2C, "3")
X(my_MM, 0x2E, 0x2C, "3")
X(nan_TW, 0x2E, 0x2C, "4")
X(nb_NO, 0x2C, 0x202F, "3")
X(nds_DE, 0x2C, 0x2E, "3")
X(ne_NP, 0x2E, 0x2C, "3")
X(nhn_MX, 0x2E, 0x202F, "3")
X(niu_NU, 0x2E, 0x2C, "3")
X(niu_NZ, 0x2E, 0x2C, "3")
X(nl_BE, 0x2C, 0x2E, "3")
X(nn_NO, 0x2C, 0x202F, "3")
X(nr_ZA, 0x2E, 0x2C, "3")
X(nso_ZA, 0x2E, 0x2C, "3")
X(oc_FR, 0x2C, 0x202F, "3")
X(om_ET, 0x2E, 0x2C, "3")
X(om_KE, 0x2E, 0x2C, "3")
X(or_IN, 0x2E, 0x2C, "3;2")
X(os_RU, 0x2C, 0x202F, "3")
X(pa_IN, 0x2E, 0x2C, "3")
X(pap_AW, 0x2C, 0x0, "")
X(pap_CW, 0x2C, 0x0, "")
X(pa_PK, 0x2E, 0x2C, "3")
X(pl_PL, 0x2C, 0x202F, "3")
X(POSIX, 0x2E, 0x0, "")
X(ps_AF, 0x66B, 0x66C, "3")
X(pt_BR, 0x2C, 0x2E, "3")
X(pt_PT, 0x2C, 0x0, "")
X(quz_PE, 0x2C, 0x2E, "3")
X(raj_IN, 0x2E, 0x2C, "3")
X(ro_RO, 0x2C, 0x2E, "3")
X(ru_RU, 0x2C, 0x202F, "3")
X(ru_UA, 0x2C, 0x2E, "3")
X(rw_RW, 0x2C, 0x0, "")
X(sa_IN, 0x2E, 0x2C, "3")
X(sat_IN, 0x2E, 0x2C, "3")
X(sc_IT, 0x2C, 0x2E, "3")
X(sd_IN, 0x2E, 0x2C, "3")
X(sd_PK, 0x2E, 0x2C, "3;2")
X(se_NO, 0x2C, 0x2E, "3")
X(sgs_LT, 0x2C, 0x2E, "3")
X(shn_MM, 0x2E, 0x2C, "3")
X(shs_CA, 0x2E, 0x2C, "3")
X(sid_ET, 0x2E, 0x2C, "3")
X(si_LK, 0x2E, 0x2C, "3")
X(sk_SK, 0x2C, 0x202F, "3")
X(sl_SI, 0x2C, 0x0, "")
X(sm_WS, 0x2E, 0x2C, "3")
X(so_DJ, 0x2E, 0x0, "")
X(so_ET, 0x2E, 0x2C, "3")
X(so_KE, 0x2E, 0x2C, "3")
X(so_SO, 0x2E, 0x2C, "3")
X(sq_AL, 0x2C, 0x2E, "3")
X(sq_MK, 0x2C, 0x2E, "3")
X(sr_ME, 0x2C, 0x0, "")
X(sr_RS, 0x2C, 0x0, "")
X(ss_ZA, 0x2E, 0x2C, "3")
X(st_ZA, 0x2E, 0x2C, "3")
X(sv_FI, 0x2C, 0x202F, "3")
X(sv_SE, 0x2C, 0x202F, "3")
X(sw_KE, 0x2E, 0x2C, "3")
X(sw_TZ, 0x2E, 0x2C, "3")
X(szl_PL, 0x2C, 0x202F, "3")
X(ta_IN, 0x2E, 0x2C, "3;2")
X(ta_LK, 0x2E, 0x2C, "3;2")
X(tcy_IN, 0x2E, 0x2C, "3")
X(te_IN, 0x2E, 0x2C, "3;2")
X(tg_TJ, 0x2C, 0x2E, "3")
X(the_NP, 0x2E, 0x2C, "3")
X(th_TH, 0x2E, 0x2C, "3")
X(ti_ER, 0x2E, 0x0, "")
X(ti_ET, 0x2E, 0x2C, "3")
X(tig_ER, 0x2E, 0x0, "")
X(tk_TM, 0x2E, 0x2C, "3")
X(tl_PH, 0x2E, 0x2C, "3")
X(tn_ZA, 0x2E, 0x2C, "3")
X(to_TO, 0x2E, 0x2C, "3")
X(tpi_PG, 0x2E, 0x2C, "3")
X(tr_CY, 0x2C, 0x2E, "3")
X(tr_TR, 0x2C, 0x2E, "3")
X(ts_ZA, 0x2E, 0x2C, "3")
X(tt_RU, 0x2C, 0x202F, "3")
X(tt_RU_iqtelif, 0x2C, 0x2E, "3")
X(ug_CN, 0x2E, 0x2C, "3")
X(uk_UA, 0x2C, 0x202F, "3")
X(unm_US, 0x2E, 0x202F, "2;2;2;3")
X(ur_IN, 0x2E, 0x2C, "3")
X(ur_PK, 0x2E, 0x2C, "3")
X(ve_ZA, 0x2E, 0x2C, "3")
X(vi_VN, 0x2C, 0x2E, "3")
X(wa_BE, 0x2C, 0x2E, "3")
X(wal_ET, 0x2E, 0x2C, "3")
X(wo_SN, 0x2C, 0x0, "")
X(xh_ZA, 0x2E, 0x2C, "3")
X(yi_US, 0x2E, 0x2C, "3")
X(yo_NG, 0x2E, 0x2C, "3")
X(yue_HK, 0x2E, 0x2C, "3")
X(yuw_PG, 0x2E, 0x2C, "3")
X(zh_CN, 0x2E, 0x2C, "3")
X(zh_HK, 0x2E, 0x2C, "3")
X(zh_SG, 0x2E, 0x2C, "3")
X(zh_TW, 0x2E, 0x2C, "3")
X(zu_ZA, 0x2E, 0x2C, "3")
