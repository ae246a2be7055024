import re,sys,os,shutil
src,root=sys.argv[1:3]
if os.path.exists(root): shutil.rmtree(root)
shutil.copytree(src,root)
os.symlink('afrand_mt_thr.h',root+'/interface/rng/AFRAND_MT_THR.h')
G=[ # (file regex, pattern, repl)
 (r'.*', r'\busing\s+(?!typename\b)((?:[\w]+(?:<[^;<>]*>)?::)+)(\w+_t)\s*;', r'using typename \1\2;'),
 (r'utils/options\.h$', r'constexpr bool>', r'bool>'),
 (r'utils/tictoc\.h$', r'high_resolution_clock', r'steady_clock'),
 (r'.*', r'(?<![:\w])(?<!data_set_id_t )(?<!unsigned )(train_set_id|test_set_id|flag_exclude_nothing)\b(?!\s*=[^=])', r'::nntl::DataSetsId::\1'),
 (r'math/mathn\.h$', r'OpType == (mrw_cw|mrw_rw)\b', r'OpType == base_class_t::\1'),
 (r'common_nn_data\.h$', r'B = bAllowToBlockLearning', r'B = ::nntl::inspector::is_gradcheck_inspector<typename interfaces_td<InterfacesT>::iInspect_t>::value'),
 (r'common_nn_data\.h$', r'<!B, static void>', r'<!B, void>'),
 (r'common_nn_data\.h$', r'static_assert\(false,', r'static_assert(always_false<::std::integral_constant<bool,B>>::value,'),
 (r'loss_addendum/L1\.h$', r'bool c = (calcOnFprop|appendToNZGrad)', r'bool c = L1::\1'),
 (r'loss_addendum/L2\.h$', r'bool c = (calcOnFprop|appendToNZGrad)', r'bool c = L2::\1'),
 (r'loss_addendum/DeCov\.h$', r'bool c = (calcOnFprop|appendToNZGrad)', r'bool c = DeCov::\1'),
 (r'loss_addendum/_i_loss_addendum\.h$', r'bool c = calcOnFprop', r'bool c = false'),
 (r'loss_addendum/_i_loss_addendum\.h$', r'const mtx_size_t biggestMtx', r'const math::smatrix_td::mtx_size_t biggestMtx'),
 (r'layer/(fully_connected|output)\.h$', r'(?<![:\w])(bActivationForHidden|bActivationForOutput)\b', r'_base_class_t::\1'),
 (r'layer/pack_horizontal_optional\.h$', r'(?<![:\w])phl_count\b', r'_base_class_t::phl_count'),
 (r'layers\.h$', r'typename iMath_t::(realmtx\w*)', r'typename common_data_t::iMath_t::\1'),
 (r'serialization/serialization\.h$', r'(?<=[(\s:])nvp(?=\s*[&(])', r'nvp<T>'),
 (r'serialization/serialization\.h$', r'const nvp&', r'const nvp<T>&'),
 (r'nnet\.h$', r'#include "[^"]*matfile.h"', r''),
 (r'nnet\.h$', r'typename iMath_t::(realmtx\w*)', r'typename LayersPack::iMath_t::\1'),
 (r'.*', r'template\s*<\s*bool (\w+) = (\w+)<self_t>::value\s*>', r'template<typename VpS__ = self_t, bool \1 = \2<VpS__>::value>'),
 (r'.*', r'= (?:typename )?self_t::(template )?(default_StatsFuncT|NormalizerF_tpl)', r'= typename ::vp_dep<self_t, CommonDataT>::type::\1\2'),
 (r'layer/_layer_base\.h$', r'B = bAllowToBlockLearning', r'B = ::nntl::inspector::is_gradcheck_inspector<typename interfaces_td<InterfacesT>::iInspect_t>::value'),
 (r'utils/mixins\.h$', r'm_opts\.(get|set)<', r'm_opts.template \1<'),
 (r'math/mathn\.h$', r'(typedef _SMath<[^;]*> base_class_t;)', r'\1 typedef FinalPolymorphChild self_t; template<typename T> using converter_reduce_data_tpl = typename base_class_t::template converter_reduce_data_tpl<T>;'),
 (r'threads/\w+\.h$', r'typedef converter_reduce_data_t<', r'typedef typename _i_threads<RealT, RangeT>::template converter_reduce_data_t<'),
 (r'math/smath\.h$', r'\bF\.(op|rw_updVecElm)<', r'F.template \1<'),
 (r'math/s?mathn?\.h$', r'\bThresholds_t::(\w+)<', r'Thresholds_t::template \1<'),
 (r'.*', r'static_assert\(::std::is_base_of<_i_\w+, \w+>::value, "[^"]*"\);', r''),
 (r'_defs\.h$', r'(\n)\s*static_assert\(cond, msg\);\s*\\\r?\n', r'\1'),
 (r'train_data/_td_norm\.h$', r'\bself_t::mtx_update_t', r'StatsFunctor_t::mtx_update_t'),
 (r'layer/\w+\.h$', r'(?:typename )?realmtx_t::tag_noBias', r'::nntl::math::tag_noBias'),
 (r'layer/extender\.h$', r'(?<![:\w])mtx_size_t\(', r'::nntl::math::smatrix_td::mtx_size_t('),
 (r'layer/extender\.h$', r'static_assert\(false,', r'static_assert(always_false<T>::value,'),
 (r'layer/(_lph_base|pack_\w+)\.h$', r'(?<![:\w])ErrorCode\b', r'::nntl::_nnet_errs::ErrorCode'),
 (r'layer/pack_\w+\.h$', r'(?<![:\w])realmtx_t::sNumel', r'::nntl::math::smatrix<float>::sNumel'),
 (r'layer/_layer_base\.h$', r'(const auto& get_common_data\(\)const noexcept \{ return )get_self', r'\1this->get_self'),
 (r'utils/layer_idx_keeper\.h$', r'_base_class_t::_Get_container\(\)', r'this->c'),
 (r'math/smatrix\.h$', None, None),
]
for d,_,fs in os.walk(root):
  for f in fs:
    if not f.endswith('.h'): continue
    p=os.path.join(d,f)
    if os.path.islink(p): continue
    s=open(p,encoding='utf-8',errors='surrogateescape',newline='').read(); o=s
    rel=os.path.relpath(p,root)
    for fr,a,b in G:
      if re.search(fr,rel):
        if a is None:
          i=re.search(r'^\s*class smatrix_deform\b',s,re.M).start()
          s=s[:i]+re.sub(r'\bsmatrix(&&?)',r'smatrix<T_>\1',s[i:])
        else: s=re.sub(a,b,s)
    if s!=o: open(p,'w',encoding='utf-8',errors='surrogateescape',newline='').write(s)
