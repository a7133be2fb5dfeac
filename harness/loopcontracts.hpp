// Loop contracts written in the code: no effect at run time
#ifndef VCH_LOOPCONTRACTS_HPP
#define VCH_LOOPCONTRACTS_HPP
#define CRYPTO3_ALGEBRA_LOOP_CONTRACT(name, ...) ::vch::name(__VA_ARGS__);
namespace vch {
#define VCH_LC(name) template<class... A> __attribute__((noinline)) void name(A &...) { }
    VCH_LC(bdlo12_windows)
    VCH_LC(bos_coster_heap)
    VCH_LC(windowed_exp_windows)
    VCH_LC(naive_sum)
    VCH_LC(square_and_multiply)
    VCH_LC(rotation_shift)
    VCH_LC(gauss_jordan_step)
    VCH_LC(heron_iteration)
    VCH_LC(newton_iteration)
    VCH_LC(least_so_far)
    VCH_LC(greatest_so_far)
    VCH_LC(tonelli_shanks)
    VCH_LC(xor_prefix)
    VCH_LC(batch_prefix)
    VCH_LC(window_table_rows)
    VCH_LC(mixed_addition)
    VCH_LC(chunk_sum)
    VCH_LC(tonelli_shanks_order)
    VCH_LC(tonelli_shanks_root)
#undef VCH_LC
}    // namespace vch
#endif
