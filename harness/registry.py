"""Which contract harnesses decide which property."""
from irvc import Harness
PROPS = {}
def prop(id, harnesses, **k): PROPS[id] = dict(harnesses=harnesses, **k)

prop('C01', [
  Harness(file='c01_extent_same.cc', entry='h_extent_same', cuts={r'_ZN8crucible17btrfs_extent_same.*': dict(ghosts=['g_done', 'g_differs'], tag='btrfs_extent_same')}, unwind=3),
], contracts=['crucible::btrfs_extent_same', 'crucible::BtrfsExtentSame::do_ioctl'])
LOOP = r'_ZN8crucible.*|_ZN?K?\d*[Bb]ees.*|_ZNK?\d+Bees.*|_Z\d+bees.*'
IO = {LOOP: dict(ghosts=['g_done', 'g_calls', 'g_eof'], tag='io')}
prop('C21', [Harness(file='c21_io.cc', entry=e, cuts=IO, unwind=3) for e in ('h_write_or_die', 'h_pwrite_or_die', 'h_read_or_die', 'h_pread_or_die', 'h_read_partial', 'h_write_partial')])
prop('C18', [Harness(file='c18_limits.cc', entry=e, unwind=3) for e in ('h_cast_u64', 'h_cast_s64', 'h_cast_u32', 'h_cast_s32', 'h_cast_16', 'h_cast_8')])
prop('C09', [Harness(file='c09_address.cc', entry=e, unwind=3) for e in ('h_addr_encode', 'h_addr_injective', 'h_addr_toxic', 'h_addr_compare')])
FD = {r'_ZN8crucible2FdC[12]Ev': 'h_fd_default', r'_ZN8crucible2FdC[12]Ei': 'h_fd_int', r'_ZN8crucible2FdaSEi': 'h_fd_assign'}
C10R = dict(FD, **{r'_ZN8crucible4StatC[12]Ei': 'h_stat_fd', r'_ZN8crucible17btrfs_get_root_idEi': 'h_root_id'})
prop('C10', [Harness(file='c10_range.cc', entry=e, unwind=12, replace=C10R) for e in ('h_range_size', 'h_range_grow', 'h_range_grow_past', 'h_range_shrink', 'h_range_overlap', 'h_range_order', 'h_fid_order', 'h_pair_make')] +
  [Harness(file='c10_range.cc', entry='h_pair_shrink', unwind=12, replace=C10R, cbmc=['--sat-solver', 'cadical'])])
C16R = {r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]IPhvEET_S7_RKS3_': 'h_string_range'}
prop('C16', [Harness(file='c16_bytes.cc', entry=e, unwind=4, replace=C16R) for e in ('h_bv_sub', 'h_bv_get', 'h_bv_copy', 'h_bv_erase', 'h_item_key', 'h_item_extent', 'h_item_root', 'h_item_chunk', 'h_item_dev', 'h_item_inode', 'h_item_file', 'h_item_file_len', 'h_item_file_off', 'h_item_file_pos', 'h_item_name')] +
  [Harness(file='c16_search.cc', entry='h_search', unwind=5, force_extern=[r'_ZSt4lockI'], replace={r'_ZNSt3setIN8crucible22BtrfsIoctlSearchHeaderE.*5clearEv': 'h_set_clear', r'_ZNSt3setIN8crucible22BtrfsIoctlSearchHeaderE.*6insert.*': 'h_set_insert', r'_ZN8crucible22BtrfsIoctlSearchHeader8set_data.*': 'h_set_data'},
     cuts={LOOP: dict(ghosts=['g_i', 'g_off'], havoc=['g_obj', 'g_type', 'g_itoff', 'g_len', 'g_have'], inv=['@g_i <= @g_n'], nocalls='ioctl', tag='search')}),
   Harness(file='c16_search.cc', entry='h_set_data_body', force_extern=[r'_ZSt4lockI'])] +
  [Harness(file='c16_search.cc', entry=e) for e in ('h_next_min', 'h_next_min_type')])
HT = r'_ZN13BeesHashTable'
C03R = {HT + '14get_cell_rangeEm': 'h_range', HT + '28fetch_missing_extent_by_hashEm': 'h_fetch', HT + '20hash_to_extent_indexEm': 'h_extent', HT + '23set_extent_dirty_lockedEm': 'h_dirty',
  HT + '19lock_extent_by_hashEm': 'h_lock', r'_ZNSt24uniform_int_distributionImEclI.*': 'h_random', r'_ZSt4findIPN13BeesHashTable4CellES1_ET_S3_S3_RKT0_': 'h_find'}
C03P = dict(C03R, **{r'_ZNSt6vectorIN13BeesHashTable4CellESaIS1_EE9push_backE.*': 'h_push'})
C03I = ['@inv_alias()', '@inv_cache()']
C03H = dict(havoc=['g_v', 'g_cidx', 'g_cval'], frame_ok=[r'.*'], inv=C03I, tag='bucket')
C03C = {r'(%s(20push|21push|15erase)).*' % HT: dict(C03H, ghosts=['g_stored'], ptrs=['@inv_%s($v)' % x for x in 'at same front lo hi pos m e e1 e2'.split()] + ['@inv_%s($v,$e)' % x for x in 'shift le ge'.split()], ppairs=['@inv_next($v,$w)']),
  r'(%s(4find|9find)|_ZSt(7copy_if|9__copy_if)IP?N13BeesHashTable).*' % HT: dict(C03H, ghosts=['g_stored', 'g_pushed', 'g_lastpush'], ptrs=['@inv_%s($v)' % x for x in 'at same lo hi found'.split()])}
C04N = {r'_ZNSt6vectorIN13BeesHashTable14ExtentMetaDataESaIS1_EE2atEm': 'h_at', r'_ZN8crucible12pread_or_dieEiPvml': 'h_pread', r'_ZN8crucible13pwrite_or_dieINS_10ByteVectorEEEviRKT_l': 'h_pwrite', r'_Z16bees_unreadaheadilm': 'h_unreadahead'}
AE = r'_ZN8crucible\w*(analyze_exception|catch_explainer).*'
SETC = r'_ZNSt3setIN13BeesHashTable4CellESt4lessIS1_ESaIS1_EE'
C04R = dict(C04N, **{r'_ZN8crucible10ByteVectorC1EPhS1_m': 'h_bv', r'_ZN8crucible10ByteVectorD[12]Ev': 'h_bv_end', SETC + r'C2IPS1_EET_S8_': 'h_set_range'})
C04C = {r'_ZNSt18condition_variable10notify_(one|all)Ev': 'h_notify'}
C04L = dict(C04R, **{r'_ZNKSt3setIN13BeesHashTable4CellESt4lessIS1_ESaIS1_EE5countERKS1_': 'h_set_count'})
C03L = Harness(file='c04_flush.cc', entry='h_load', unwind=3, replace=C04L, native_replace=C04N, force_extern=[SETC + r'D[12]Ev', AE], opts=dict(sparse=dict(obj='g_tab', load='h_ld', store='h_st', move='h_mv')),
  cuts={HT + '28?fetch_missing_extent_by_index.*|' + HT + '29fetch_missing_extent_by_index.*': dict(tag='load', ghosts=['g_stored'], havoc=['g_v', 'g_cidx', 'g_cval'], frame_ok=[r'.*'], ptrs=['@inv_at($v)', '@inv_clean($v)'], unary=['@inv_index($v)'])})
C04W = {r'_ZNSt6vectorIN13BeesHashTable14ExtentMetaDataESaIS1_EE2atEm': 'h_at', HT + '18flush_dirty_extentEm': 'h_flush_one', r'_ZN?K?8crucible11RateLimiter10sleep_timeEd': 'h_sleep', r'_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE': 'h_wait', r'_ZNSt18condition_variable8wait_forI.*': 'h_wait_for'}
prop('C04', [Harness(file='c04_flush.cc', entry=e, force_extern=[AE], replace=dict(C04R, **(C04C if e == 'h_mark' else {})), native_replace=dict(C04N, **(C04C if e == 'h_mark' else {}))) for e in ('h_flush', 'h_mark')] + [
  Harness(file='c04_writer.cc', entry='h_stop', defs=['STOPPER'], force_extern=[AE], replace=C04C, native_replace=C04C),
  Harness(file='c04_writer.cc', entry='h_flush_pass', force_extern=[AE], replace=C04W, cuts={HT + '19flush_dirty_extents.*': dict(tag='pass', ghosts=['g_flushed'], havoc=['hav_visit'], frame_ok=[r'.*'], inv=[], unary=['@inv_visit($v)'])}),
  Harness(file='c04_writer.cc', entry='h_writeback', defs=['WRITER'], force_extern=[AE], replace=dict(C04W, **{HT + '19flush_dirty_extentsEb': 'h_flush_all'}), cuts={HT + '14writeback_loop.*': dict(tag='writer', ghosts=['g_pending', 'g_flushes', 'g_ended', 'g_stop', 'g_steps', 'g_slept'], havoc=['hav_writer'], frame_ok=[r'.*'], inv=['@inv_writer()'])})])
prop('C03', [Harness(file='c03_hash.cc', entry=e, unwind=9, replace=r, native_replace=C03R, force_extern=['_ZTW.*'], cuts=C03C, opts=dict(sparse=dict(obj='g_tab', load='h_ld', store='h_st', move='h_mv'))) for e, r in (('h_push_front', C03R), ('h_push_random', C03R), ('h_erase', C03R), ('h_lookup', C03P))] + [C03L, Harness(file='c03_locate.cc', entry='h_locate', opts=dict(urem_uf=True))])
C02R = dict(FD, **{r'_ZN8crucible4StatC[12]Ei': 'h_stat_fd', r'_ZN8crucible17btrfs_get_root_idEi': 'h_root_id', r'_ZN8crucible16ioctl_iflags_getEi': 'h_iflags', r'_ZN8crucible21BtrfsIoctlInoPathArgs16do_ioctl_nothrowEi': 'h_ino_path',
  r'_ZN9BeesRoots9open_rootEm': 'h_open_root', r'_ZNSt3mapI10BeesFileIdN8crucible2FdE.*4findERS\d_': 'h_find', r'_ZN8crucible16BtrfsRootFetcher12root_backrefEm': 'h_backref', r'_ZNK8crucible13BtrfsTreeItem14root_ref_diridEv': 'h_dirid',
  r'_ZNK8crucible13BtrfsTreeItem13root_ref_nameB5cxx11Ev': 'h_name', r'_ZNK8crucible13BtrfsTreeItemntEv': 'h_item_none', r'_ZN8crucible16BtrfsRootFetcherC[12]ERKNS_2FdE': 'h_fetcher', r'_ZN8crucible16BtrfsRootFetcherD[12]Ev': 'h_fetcher_end', r'_ZN?K?11BeesContext7root_fdEv': 'h_ctx_root'})
C02P = dict(C02R, **{r'_ZN8crucible21BtrfsIoctlInoPathArgsC[12]Emm': 'h_ipa', r'_ZN10BeesFileIdC[12]Emm': 'h_fileid', r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC[12]ERKS4_': 'h_str_copy', r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED[12]Ev': 'h_str_end', r'_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE5c_strEv': 'h_cstr',
  r'_ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EED[12]Ev': 'h_vec_end', r'_ZNSt6vectorINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESaIS5_EE2atEm': 'h_vec_at'})
prop('C02', [Harness(file='c02_open.cc', entry=e, replace=C02P, native_replace=C02R, force_extern=[AE], cuts={r'_ZN9BeesRoots.*': dict(tag='open', ghosts=['g_opens', 'g_bad', 'g_cur', 'g_stage'], havoc=['g_cur_ino', 'g_cur_root', 'g_cur_dev', 'g_cur_attr'], frame_ok=[r'.*'], ptrs=['@inv_path($v)'])}) for e in ('h_open_file', 'h_open_subvol')])
STR = r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
C05R = dict(FD, **{r'_ZN8crucible12write_or_dieEiPKvm': 'h_write', r'_ZN8crucible4StatC[12]Ei': 'h_stat_fd', r'_ZN8crucible11read_stringB5cxx11Eim': 'h_read_string', r'_ZN8crucible11read_stringEim': 'h_read_string'})
C05P = dict(C05R, **{STR + r'C[12]ERKS4_': 'h_str_copy', STR + r'C[12]EOS4_': 'h_str_copy', STR + r'D[12]Ev': 'h_str_end', STR + r'C[12]Ev': 'h_str_none', STR.replace('ZNSt', 'ZNK?St') + r'(5c_str|4data)Ev': 'h_str_p', STR.replace('ZNSt', 'ZNK?St') + r'(4size|6length)Ev': 'h_str_n', STR + r'C[12](IS3_vE|E)PKcRKS3_': 'h_str_c', r'_ZStplI.*': 'h_plus', r'_ZNSt7__cxx1111basic_regex.*C[12]EPKc.*': 'h_regex', r'_ZNSt7__cxx1111basic_regex.*D[12]Ev': 'h_regex_end',
  r'_ZNSt7__cxx1113match_results.*C[12]Ev': 'h_regex_end', r'_ZNSt7__cxx1113match_results.*C[12]ERKS.*': 'h_smatch', r'_ZNSt7__cxx1113match_results.*D[12]Ev': 'h_regex_end', r'_ZNKSt7__cxx1113match_results.*ixEm': 'h_sub', r'_ZSt12regex_searchI.*': 'h_search', r'_ZNKSt7__cxx119sub_match.*cv.*': 'h_sub_str', r'_ZNSt7__cxx115stoulE.*': 'h_stoul'})
prop('C05', [Harness(file='c05_state.cc', entry=e, replace=C05P, native_replace=C05R, force_extern=[AE]) for e in ('h_state_write', 'h_state_read')])
C07S = r'_ZN?K?St3setISt4pairI14BeesCrawlStateP.*'
C07R = {C07S + r'6insertE.*': 'h_insert', C07S + r'5eraseE.*': 'h_erase', C07S + r'5beginEv': 'h_begin', C07S + r'5emptyEv': 'h_empty', C07S + r'4sizeEv': 'h_size'}
prop('C07', [Harness(file='c07_progress.cc', entry='h_progress', force_extern=[AE], replace=C07R)])
BC = r'_ZN?K?9BeesCrawl'
C08R = dict(FD, **{BC + r'10hold_stateERK.*': 'h_hold', BC + r'9set_stateERK.*': 'h_set', BC + r'13get_state_endEv': 'h_get_end', r'_ZN?K?11BeesContext5rootsEv': 'h_roots', r'_ZN9BeesRoots11transid_maxEv': 'h_tmax', r'_ZN11BeesContext10is_root_roEm': 'h_ro',
  r'_ZN8crucible16BtrfsTreeFetcher7transidEmm': 'h_f_transid', r'_ZN8crucible16BtrfsTreeFetcher4treeEv': 'h_f_gettree', r'_ZNK8crucible16BtrfsTreeFetcher10scale_sizeEv': 'h_f_scale', r'_ZN8crucible16BtrfsTreeFetcher11lower_boundEm': 'h_lower', r'_ZNK8crucible13BtrfsTreeItemntEv': 'h_item_none', r'_ZNK8crucible13BtrfsTreeItem25file_extent_logical_bytesEv': 'h_len'})
C06G = {r'_ZN9BeesRoots10state_saveEv': 'h_save', r'_ZNSt18condition_variable8wait_forI.*': 'h_wait_for', r'_ZNSt18condition_variable10notify_allEv': 'h_notify', r'_ZNSt18condition_variable10notify_oneEv': 'h_notify_one', r'_ZN10BeesThread4joinEv': 'h_join'}
C08E = dict(FD, **{BC + r'10hold_stateERK.*': 'h_hold', BC + r'13get_state_endEv': 'h_get_end', r'_ZNK9BeesCrawl8deferredEv': 'h_deferred', r'_ZN9BeesCrawl13restart_crawlEv': 'h_restart', r'_ZN8crucible16BtrfsTreeFetcher7transidEmm': 'h_transid', r'_ZNK8crucible16BtrfsTreeFetcher10scale_sizeEv': 'h_scale', r'_ZN8crucible16BtrfsTreeFetcher11lower_boundEm': 'h_lower', r'_ZN8crucible16BtrfsTreeFetcher12rlower_boundEm': 'h_rlower',
  r'_ZNK8crucible13BtrfsTreeItemntEv': 'h_item_none', r'_ZNK8crucible13BtrfsTreeItem12extent_flagsEv': 'h_flags', r'_ZNK8crucible13BtrfsTreeItem17extent_generationEv': 'h_gen', r'_ZN18BeesScanModeExtent17count_extent_sizeEm': 'h_count', r'_ZN8crucible4Task12current_taskEv': 'h_current', r'_ZNK8crucible4Task4idleEv': 'h_idle', r'_ZNK8crucible4Task3runEv': 'h_run', r'_ZN8crucible4TaskC[12]ENSt7.*': 'h_task', r'_ZL15should_throttlev': 'h_throttle',
  r'_ZN18BeesScanModeExtent8SizeTier17create_extent_mapE.*': 'h_map', r'_ZNSt23enable_shared_from_thisIN18BeesScanModeExtent8SizeTierEE16shared_from_thisEv': 'h_this', r'_ZNK8crucible5Timer3ageEv': 'h_age'})
C08B = dict(FD, **{r'_ZN8crucible22BtrfsTreeObjectFetcherC[12]ENS_2FdE': 'h_fetcher', r'_ZN8crucible22BtrfsTreeObjectFetcherCI2.*': 'h_fetcher', r'_ZN?K?11BeesContext7root_fdEv': 'h_ctx_root', r'_ZN8crucible16BtrfsTreeFetcher4treeEm': 'h_f_tree', r'_ZN8crucible16BtrfsTreeFetcher4typeEh': 'h_f_type', r'_ZN8crucible16BtrfsTreeFetcher10scale_sizeEm': 'h_f_setscale', r'_ZN8crucible16BtrfsTreeFetcherC[12].*': 'h_fetcher'})
C08T = dict(C08R, **{r'_ZN9BeesCrawl13fetch_extentsEv': 'h_fetch_one'})
C08L = {r'_ZN9BeesCrawl20fetch_extents_harderEv': dict(tag='harder', ghosts=['g_fetches', 'g_progress', 'g_got'], havoc=['hav'], frame_ok=[r'.*'], inv=['@inv_none()'])}
C06R = dict(FD, **{BC + r'10hold_stateERK.*': 'h_hold', BC + r'9set_stateERK.*': 'h_set', BC + r'13get_state_endEv': 'h_get_end', BC + r'9pop_frontER.*': 'h_pop', r'_ZN?K?11BeesContext7root_fdEv': 'h_ctx_root',
  r'_ZN8crucible(17BtrfsInodeFetcher|22BtrfsExtentDataFetcher)C[12]ERKNS_2FdE': 'h_fetcher', r'_ZN8crucible(17BtrfsInodeFetcher|22BtrfsExtentDataFetcher)D[12]Ev': 'h_fetcher_end', r'_ZN8crucible17BtrfsInodeFetcher4statEmm': 'h_inode', r'_ZNK8crucible13BtrfsTreeItemntEv': 'h_item_none', r'_ZNK8crucible13BtrfsTreeItem11inode_flagsEv': 'h_flags',
  r'_ZN8crucible4TaskC[12]ENSt7.*': 'h_task', r'_ZNK8crucible4Task3runEv': 'h_run', r'_ZN8crucible4Task12current_taskEv': 'h_current', r'_ZNK8crucible4Task6appendERKS0_': 'h_append', r'_ZN13BeesFileCrawl12scan_one_refEv': 'h_scan_ref'})
C06S = dict((k, v) for k, v in C06R.items() if v != 'h_scan_ref')
C06S.update({r'_ZN8crucible16BtrfsTreeFetcher11lower_boundEm|_ZN8crucible22?BtrfsTreeOffsetFetcher11lower_boundEm|_ZN8crucible22BtrfsTreeOffsetFetcher11lower_boundEm': 'h_lower', r'_ZN8crucible16BtrfsTreeFetcher4treeEm': 'h_f_tree', r'_ZN8crucible22BtrfsTreeOffsetFetcher8objectidEm': 'h_f_obj', r'_ZNK8crucible22BtrfsTreeOffsetFetcher8objectidEv': 'h_f_getobj', r'_ZN8crucible16BtrfsTreeFetcher7transidEmm': 'h_f_transid',
  r'_ZNK8crucible16BtrfsTreeFetcher10block_sizeEv': 'h_block', r'_ZNK8crucible13BtrfsTreeItem22file_extent_generationEv': 'h_gen', r'_ZNK8crucible13BtrfsTreeItem16file_extent_typeEv': 'h_type', r'_ZNK8crucible13BtrfsTreeItem18file_extent_bytenrEv': 'h_phys', r'_ZNK8crucible13BtrfsTreeItem25file_extent_logical_bytesEv': 'h_len',
  r'_ZN11BeesContext15get_inode_mutexEm': 'h_imutex', r'_ZN8crucible9Exclusion8try_lockERKNS_4TaskE': 'h_trylock', r'_ZNK8crucible13ExclusionLockcvbEv': 'h_lockbool', r'_ZNK?11BeesContext14is_blacklistedERK.*': 'h_black', r'_ZN11BeesContext12scan_forwardERK.*': 'h_forward'})
C06M = r'_ZN?K?St3mapIm?St10shared_ptrI9BeesCrawlE.*'.replace('m?S', 'mS')
C06V = {r'_ZN9BeesRoots15state_to_streamERSo': 'h_to_stream', r'_ZN14BeesStringFile5writeE.*': 'h_write'}
C06VP = dict(C06V, **{r'_ZNKR?St7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv': 'h_os_str', STR + r'C[12](ERKS4_|EOS4_)': 'h_str_copy', STR + r'D[12]Ev': 'h_str_end', STR.replace('ZNSt', 'ZNK?St') + r'5emptyEv': 'h_str_empty'})
C06N = {C06M + r'5countE.*': 'h_count', C06M + r'4sizeEv': 'h_size', C06M + r'5eraseER.*': 'h_erase', C06M + r'4findE.*': 'h_find', C06M + r'6insert.*': 'h_insert', r'_ZSt11make_sharedI9BeesCrawlJ.*': 'h_crawl_new', r'_ZN9BeesCrawl8deferredEb': 'h_undefer'}
C06T = {r'_ZN8crucible10TaskMaster5pauseEb': 'h_pause', r'_ZN9BeesRoots12stop_requestEv': 'h_rr', r'_ZN9BeesRoots9stop_waitEv': 'h_rw', r'_ZN13BeesHashTable12stop_requestEv': 'h_hr', r'_ZN13BeesHashTable9stop_waitEv': 'h_hw', r'_ZN10BeesThread4joinEv': 'h_join', r'_ZNSt18condition_variable10notify_allEv': 'h_notify', r'_ZNSt18condition_variable10notify_oneEv': 'h_notify_one'}
C06X = {r'_ZSt18_Rb_tree_incrementP(K?)St18_Rb_tree_node_base': 'h_inc', r'_ZN9BeesCrawl15get_state_beginEv': 'h_begin', r'_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': 'h_text', r'_ZNSolsE[ml]': 'h_num'}
prop('C06', [Harness(file='c06_crawl.cc', entry='h_crawl_inode', replace=C06R, native_replace=C06R, force_extern=[AE]), Harness(file='c06_crawl.cc', entry='h_file_scan', replace=C06S, native_replace=C06S, force_extern=[AE]),
  Harness(file='c06_save.cc', entry='h_save', replace=C06VP, native_replace=C06V, force_extern=[AE]),
  Harness(file='c06_save.cc', entry='h_position', replace={r'_ZN11BeesContext5rootsEv': 'h_roots', r'_ZN8crucible15ProgressTrackerI14BeesCrawlStateE4holdERKS1_': 'h_hold'}, native_replace={r'_ZN11BeesContext5rootsEv': 'h_roots', r'_ZN8crucible15ProgressTrackerI14BeesCrawlStateE4holdERKS1_': 'h_hold'}, force_extern=[AE]),
  Harness(file='c06_text.cc', entry='h_text_out', unwind=14, replace=C06X, native_replace=C06X, force_extern=[AE], cuts={r'_ZN9BeesRoots15state_to_stream.*': dict(tag='text', ghosts=['g_idx', 'g_lines', 'g_seen', 'g_key', 'g_current'], havoc=['hav', 'g_cur'], frame_ok=[r'.*'], ptrs=['@inv_node($v)'])}),
  Harness(file='c06_stop.cc', entry='h_stop', replace=C06T, native_replace=C06T, force_extern=[AE]),
  Harness(file='c06_save.cc', entry='h_scans', replace=C06N, native_replace=C06N, force_extern=[AE]),
  Harness(file='c06_saver.cc', entry='h_saver_stop', defs=['STOPPER'], force_extern=[AE], replace=C06G, native_replace=C06G),
  Harness(file='c06_saver.cc', entry='h_saver', force_extern=[AE], replace=C06G, native_replace=C06G, cuts={r'_ZN9BeesRoots16writeback_threadEv': dict(tag='saver', ghosts=['g_stop', 'g_fresh', 'g_final', 'g_slept', 'g_steps'], havoc=['hav'], frame_ok=[r'.*'], inv=['@inv_saver()'])}),
  Harness(file='c08_fetch.cc', entry='h_found_held', replace=C08R, native_replace=C08R, force_extern=[AE]), Harness(file='c08_fetch.cc', entry='h_take', replace=C08T, native_replace=C08T, force_extern=[AE], cuts=C08L)])

SPAN = r'_ZNK8crucible24BtrfsIoctlLogicalInoArgs24BtrfsInodeOffsetRootSpan[1-9]'
LST = r'_ZN?K?St7__cxx114listIN18BeesScanModeExtent9ExtentRefESaIS2_EE'
C08X = dict(FD, **{r'_ZN8crucible22btrfs_inode_flags_ntoaB5cxx11Em|_ZN8crucible22btrfs_inode_flags_ntoaEm.*|_ZN8crucible22btrfs_inode_flags_ntoa.*': 'h_ntoa', r'_ZN?K?11BeesContext7root_fdEv': 'h_ctx_root', r'_ZN11BeesContext11logical_inoEmb': 'h_logical_ino', r'_ZN8crucible11MultiLocker8get_lockE.*': 'h_getlock', r'_ZN8crucible24BtrfsIoctlLogicalInoArgs16do_ioctl_nothrowEi': 'h_ioctl', r'_Z13bees_throttledPKc': 'h_throttled',
  r'_ZN8crucible(17BtrfsInodeFetcher|22BtrfsExtentDataFetcher)C[12]ERKNS_2FdE': 'h_fetcher', r'_ZN8crucible(17BtrfsInodeFetcher|22BtrfsExtentDataFetcher)D[12]Ev': 'h_fetcher_end', r'_ZN8crucible17BtrfsInodeFetcher4statEmm': 'h_inode', r'_ZNK8crucible13BtrfsTreeItemntEv': 'h_item_none', r'_ZNK8crucible13BtrfsTreeItem11inode_flagsEv': 'h_flags',
  r'_ZN8crucible16BtrfsTreeFetcher4treeEm': 'h_f_tree', r'_ZN8crucible22BtrfsTreeOffsetFetcher8objectidEm': 'h_f_obj', r'_ZN8crucible16BtrfsTreeFetcher2atEm': 'h_at', r'_ZNK8crucible13BtrfsTreeItem25file_extent_logical_bytesEv': 'h_len',
  SPAN + r'(c?begin|data)Ev': 'h_iors', SPAN + r'c?endEv': 'h_iors_end', SPAN + r'sizeEv': 'h_iors_n', LST + r'9push_backE.*': 'h_push', LST + r'4sortI.*': 'h_sort', LST + r'D[12]Ev': 'h_list_end', LST + r'5emptyEv': 'h_empty', LST + r'4sizeEv': 'h_size', LST + r'5beginEv': 'h_begin', LST + r'9pop_frontEv': 'h_pop', LST + r'10push_frontE.*': 'h_put_back', r'_ZN18BeesScanModeExtent8SizeTier12scan_one_refE.*': 'h_scan_ref',
  r'_ZNSt23enable_shared_from_thisIN18BeesScanModeExtent8SizeTierEE16shared_from_thisEv': 'h_this', r'_ZL15should_throttlev': 'h_throttle', r'_ZN8crucible4Task12current_taskEv': 'h_current', r'_ZNK8crucible4Task4idleEv': 'h_idle', r'_ZNK8crucible4Task3runEv': 'h_run', r'_ZN8crucible4TaskC[12]ENSt7.*': 'h_task'})
C08Y = dict(FD, **{r'_ZN11BeesContext15get_inode_mutexEm': 'h_imutex', r'_ZN8crucible9Exclusion8try_lockERKNS_4TaskE': 'h_trylock', r'_ZNK8crucible13ExclusionLockcvbEv': 'h_lockbool', r'_ZN11BeesContext12scan_forwardERK.*': 'h_forward', r'_ZN8crucible4Task12current_taskEv': 'h_current'})
prop('C08', [Harness(file='c08_refs.cc', entry='h_map_refs', replace=C08X, native_replace=C08X, force_extern=[AE, '_ZTW.*'], cuts={r'_ZN18BeesScanModeExtent8SizeTier17create_extent_mapE.*': dict(tag='refs', level='eq', ghosts=['g_excused', 'g_listed', 'g_count', 'g_have', 'g_tree', 'g_obj', 'g_off', 'g_len', 'g_nocow', 'g_stat_v'], frame_ok=[r'.*'], inv=['@inv_refs()'], ptrs=['@inv_ref($v)'])}),
  Harness(file='c08_refs.cc', entry='h_scan_one_ref', replace=C08Y, native_replace=C08Y, force_extern=[AE, '_ZTW.*']),
  Harness(file='c08_fetch.cc', entry='h_fetch', replace=C08R, native_replace=C08R, force_extern=[AE]), Harness(file='c08_fetch.cc', entry='h_harder', replace=C08T, native_replace=C08T, force_extern=[AE], cuts=C08L),
  Harness(file='c08_fetch.cc', entry='h_crawl_new', replace=C08B, native_replace=C08B, force_extern=[AE]),
  Harness(file='c08_extent.cc', entry='h_find', replace=C08E, native_replace=C08E, force_extern=[AE, '_ZTW.*'], cuts={r'_ZN18BeesScanModeExtent8SizeTier16find_next_extentEv': dict(tag='find', level='eq', ghosts=[], havoc=['hav', 'g_cur', 'g_holds', 'g_found', 'g_deferred'], frame_ok=[r'.*'], inv=['@inv_end()'], unary=['@inv_pos($v)'])})])


TL = r'_ZN?K?St7__cxx114listISt10shared_ptrIN8crucible9TaskStateEESaIS4_EE'
C13T = {TL + r'C[12]Ev': 'l_new', TL + r'C[12]ESt16initializer_listIS4_ERKS5_': 'l_new_list', TL + r'D[12]Ev': 'l_end', TL + r'(9push_backE(OS4_|RKS4_)|10push_frontE(OS4_|RKS4_)|12emplace_backI.*|13emplace_frontI.*)': 'l_push', TL + r'5emptyEv': 'l_empty', TL + r'4sizeEv': 'l_size', TL + r'(5begin|3end)Ev': 'l_iter', TL + r'6spliceESt20_List_const_iteratorIS4_E[OR]S6_': 'l_splice', TL + r'4swapERS6_': 'l_swap', TL + r'4sortI.*': 'l_sort', TL + r'5clearEv': 'l_clear',
  r'_ZSt4lockISt11unique_lockISt5mutexES2_JEEv.*': 'h_lock2', r'_ZNSt23enable_shared_from_thisIN8crucible9TaskStateEE16shared_from_thisEv': 'h_this', r'_ZTWN8crucibleL15tl_current_taskE': 'h_tl', r'_ZTWN8crucibleL19tl_current_consumerE': 'h_tlc', r'_ZN8crucible15TaskMasterState20start_threads_nolockEv': 'h_start', r'_ZNSt18condition_variable10notify_allEv': 'h_notify', r'_ZNSt18condition_variable10notify_oneEv': 'h_notify_one',
  r'_ZN8crucible15pthread_setname.*': 'h_setname', r'_ZN8crucible15pthread_getname.*': 'h_getname', r'_ZN8crucible9TaskState5clearEv': 'h_clear_task', r'_ZN8crucible9TaskState11clear_queueE.*': 'h_clear_queue', r'_ZSt11make_sharedIN8crucible9TaskStateEJ.*': 'h_rescue_task'}
def C13H(e, **k): return Harness(file='c13_task.cc', entry=e, replace=C13T, native_replace=C13T, force_extern=[AE], **k)
TC = r'_ZN?K?St3setISt10shared_ptrIN8crucible12TaskConsumerEESt4lessIS3_ESaIS3_EE'.replace('N?K?St3', 'NK?St3')
C13W = dict(C13T, **{TL + r'5beginEv': 'k_begin', TL + r'9pop_frontEv': 'k_pop', r'_ZN8crucible9TaskState4execEv': 'k_exec', r'_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE': 'k_wait', TC + r'4sizeEv': 'k_size', TC + r'5eraseERKS3_': 'k_erase', r'_ZNSt6thread6detachEv': 'k_detach', r'_ZNSt23enable_shared_from_thisIN8crucible12TaskConsumerEE16shared_from_thisEv': 'k_this'})
del C13W[TL + r'(5begin|3end)Ev']
C13X = dict(C13T, **{r'_ZNKSt8weak_ptrIN8crucible4TaskEE4lockEv': 'x_lock', r'_ZNSt8weak_ptrIN8crucible4TaskEEaSIS1_E.*': 'x_set', r'_ZSt11make_sharedIN8crucible4TaskEJRKS1_EE.*': 'x_copy', r'_ZNK8crucible4Task6insertERKS0_': 'x_insert'})
prop('C13', [Harness(file='c13_task.cc', entry='h_worker', replace=C13W, native_replace=C13W, force_extern=[AE], cuts={r'_ZN8crucible12TaskConsumer15consumer_threadEv': dict(tag='worker', level='eq', ghosts=['g_taken', 'g_execs', 'g_from'], havoc=['k_hav'], frame_ok=[r'.*'], inv=['@inv_work()'])}),
  Harness(file='c13_task.cc', entry='h_exclusion', replace=C13X, native_replace=C13X, force_extern=[AE]), C13H('h_run'), C13H('h_append'), C13H('h_exec'), C13H('h_rescue')])
ST = r'_ZNK?St3setIN8crucible22BtrfsIoctlSearchHeaderE.*'
C17R = dict(FD, **{r'_ZN8crucible19BtrfsIoctlSearchKey8do_ioctlEi': 'h_do_ioctl', r'_ZN8crucible19BtrfsIoctlSearchKey8next_minERKNS_22BtrfsIoctlSearchHeaderEh': 'h_next_min', r'_ZN8crucible20BtrfsIoctlFsInfoArgs8do_ioctlEi': 'h_fs_info', ST + '5beginEv': 'h_begin', ST + '3endEv': 'h_end', ST + '4sizeEv': 'h_size', ST + '5emptyEv': 'h_empty', r'_ZSt18_Rb_tree_increment.*': 'h_inc', r'_ZTWN8crucible19BtrfsIoctlSearchKey15s_debug_ostreamE|_ZTWN8crucible\d+tl_\w+E': 'h_dbg'})
C17L = {r'_ZN8crucible16BtrfsTreeFetcher11lower_boundEm': dict(tag='lower', ghosts=['g_calls', 'g_nonempty', 'g_left', 'g_incs', 'g_has'], havoc=['hav'], frame_ok=[r'.*'], inv=['@inv_outer()', '@inv_inner()'], ptrs=['@inv_item($v)'])}
C17P = dict(C17R, **{r'_ZNSt3setIN8crucible22BtrfsIoctlSearchHeaderE.*D[12]Ev': 'h_set_gone'})
prop('C17', [Harness(file='c17_tree.cc', entry=e, replace=C17P, native_replace=C17R, force_extern=[AE], cuts=C17L) for e in ('h_lower_object', 'h_lower_offset')] + [Harness(file='c17_tree.cc', entry=e, unwind=3, replace=C17P, native_replace=C17R, force_extern=[AE]) for e in ('h_at_object', 'h_at_offset')])
TF = r'_ZN8crucible\d+Btrfs\w*Fetcher'
C17S = dict(C17P, **{r'_ZN8crucible16BtrfsTreeFetcher11lower_boundEm': 'h_lower', r'_ZN8crucible16BtrfsTreeFetcher12rlower_boundEm': 'h_rlower'})
C17A = dict(C17P, **{r'_ZN8crucible16BtrfsTreeFetcher2atEm': 'h_at'})
C17D = dict(C17P, **{r'_ZN8crucible16BtrfsTreeFetcher11lower_boundEm': 'h_chunk_ge', r'_ZN8crucible16BtrfsTreeFetcher12rlower_boundEm': 'h_chunk_le', r'_ZNK8crucible13BtrfsTreeItem12chunk_lengthEv': 'h_chunk_len', r'_ZNK8crucible13BtrfsTreeItem10chunk_typeEv': 'h_chunk_type', r'_ZNK8crucible13BtrfsTreeItemntEv': 'h_chunk_none'})
def native(d): return {k: v for k, v in d.items() if v != 'h_set_gone'}
PROPS['C17']['harnesses'] += [Harness(file='c17_tree.cc', entry=e, replace=C17S, native_replace=native(C17S), force_extern=[AE]) for e in ('h_steps_1', 'h_steps_4k', 'h_steps_64k')] + [
  Harness(file='c17_tree.cc', entry='h_named', replace=C17A, native_replace=native(C17A), force_extern=[AE]),
  Harness(file='c17_tree.cc', entry='h_data_next', replace=C17D, native_replace=native(C17D), force_extern=[AE], cuts={r'_ZN8crucible26BtrfsDataExtentTreeFetcher7next_skE.*': dict(tag='skip', ghosts=['m_asks'], havoc=['hav_skip'], frame_ok=[r'.*'], inv=['@inv_skip()'])})]
PROPS['C17']['harnesses'] += [Harness(file='c17_seek.cc', entry='h_seek', force_extern=[AE], replace={r'_ZTWN8crucible\d+tl_\w+E': 'h_dbg'}, native_replace={r'_ZTWN8crucible\d+tl_\w+E': 'h_dbg'}, cuts={r'_ZN8crucible13seek_backwardI.*': dict(tag='seek', ghosts=['g_calls', 'g_any', 'g_seen', 'r_empty', 'r_w'], havoc=['r_lo', 'r_hi', 'r_s', 'r_v', 'r_end'], frame_ok=[r'.*'], inv=['@inv_all()', '@inv_rev()'], unary=['@inv_probe($v)', '@inv_upper($v)', '@inv_lower($v)', '@inv_flag($v)'])})]
MP = r'_ZNK?St3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEm.*'
SNE = r'_ZSt%sIcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_stringIT_T0_T1_EES.*'
C14R = {SNE % 'ne': 'h_ne', SNE % 'eq': 'h_eq', r'_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareERKS4_': 'h_cmp', MP + 'ixE.*': 'h_index', MP + '6insertI.*': 'h_insert', MP + '6insertEO.*': 'h_insert', MP + '5beginEv': 'h_begin', MP + '3endEv': 'h_end', r'_ZSt18_Rb_tree_increment.*': 'h_inc'}
C14G = dict(C14R, **{r'_ZN8crucible11MultiLocker17is_lock_availableE.*': 'h_avail', r'_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE': 'h_wait', r'_ZNSt18condition_variable10notify_allEv': 'h_notify', r'_ZNSt18condition_variable10notify_oneEv': 'h_notify_one'})
BS = r'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
C14S = {BS + r'C[12]ERKS4_': 'h_str_copy', BS + r'C[12]EOS4_': 'h_str_copy', BS + r'C[12](IS3_)?E+PKcRKS3_': 'h_str_lit', BS + r'D[12]Ev': 'h_str_end'}
prop('C14', [Harness(file='c14_lock.cc', entry='h_available', replace=dict(C14R, **C14S), native_replace=C14R, force_extern=[AE], cuts={r'_ZN8crucible11MultiLocker17is_lock_availableE.*': dict(tag='groups', ghosts=['g_idx', 'g_any'], havoc=['hav'], frame_ok=[r'.*'], ptrs=['@inv_node($v)'])}),
  Harness(file='c14_lock.cc', entry='h_get', defs=['GET'], replace=dict(C14G, **C14S), native_replace=C14G, force_extern=[AE], unwind=6, cuts={r'_ZN8crucible11MultiLocker16get_lock_privateE.*|_ZNSt18condition_variable4waitI.*': dict(tag='get', ghosts=['g_waits', 'g_holds', 'g_checked'], havoc=['hav_get'], frame_ok=[r'.*'], inv=['@inv_get()'])}),
  Harness(file='c14_lock.cc', entry='h_put', defs=['GET'], replace=dict(C14G, **C14S), native_replace=C14G, force_extern=[AE], unwind=6),
  Harness(file='c14_lock.cc', entry='h_lock', defs=['GET'], replace=dict(C14S, **{r'_ZN8crucible11MultiLocker16get_lock_privateE.*': 'h_private'}), native_replace={r'_ZN8crucible11MultiLocker16get_lock_privateE.*': 'h_private'}, force_extern=[AE])])
