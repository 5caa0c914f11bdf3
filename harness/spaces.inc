// included twice (library under test, frozen reference) with NS and MAKE defined
#undef VH_INITIALIZED
#define VH_INITIALIZED(x)
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#undef VH_INITIALIZED
#define VH_INITIALIZED(x) __msan_check_mem_is_initialized(&(x), sizeof(x))
#endif
#endif
namespace
{
// T: the function, B: the type through which it is used and destroyed (T itself or the common base class)
template <class T, class B = T>
struct SpaceW : public Space
{
  T &full;
  std::unique_ptr<B> owner;
  B &t;
  template <class... A>
  explicit SpaceW(A... a) : full(*new T(a...)), owner(&full), t(full)
  {
  }
  static NS::State in(const State &s)
  {
    NS::State o;
    o.x = s.x, o.y = s.y, o.theta = s.theta, o.kappa = s.kappa, o.d = s.d;
    return o;
  }
  static State out(const NS::State &s)
  {
    State o;
    VH_INITIALIZED(s);
    o.x = s.x, o.y = s.y, o.theta = s.theta, o.kappa = s.kappa, o.d = s.d;
    return o;
  }
  static NS::State_With_Covariance in(const State_With_Covariance &s)
  {
    NS::State_With_Covariance o;
    o.state = in(s.state);
    for (int i = 0; i < 16; i++)
      o.Sigma[i] = s.Sigma[i], o.Lambda[i] = s.Lambda[i], o.covariance[i] = s.covariance[i];
    return o;
  }
  static State_With_Covariance out(const NS::State_With_Covariance &s)
  {
    State_With_Covariance o;
    VH_INITIALIZED(s);
    o.state = out(s.state);
    for (int i = 0; i < 16; i++)
      o.Sigma[i] = s.Sigma[i], o.Lambda[i] = s.Lambda[i], o.covariance[i] = s.covariance[i];
    return o;
  }
  static std::vector<NS::Control> in(const Controls &c)
  {
    std::vector<NS::Control> o(c.size());
    for (size_t i = 0; i < c.size(); i++)
      o[i].delta_s = c[i].delta_s, o[i].kappa = c[i].kappa, o[i].sigma = c[i].sigma;
    return o;
  }
  template <class U, class V>
  static std::vector<U> outv(const std::vector<V> &p)
  {
    std::vector<U> o;
    o.reserve(p.size());
    for (auto &s : p)
      o.push_back(out(s));
    return o;
  }
  double distance(const State &a, const State &b) const override
  {
    double d = full.get_distance(in(a), in(b));
    VH_INITIALIZED(d);
    return d;
  }
  Controls controls(const State &a, const State &b) const override
  {
    std::vector<NS::Control> c = t.get_controls(in(a), in(b));
    Controls o(c.size());
    for (size_t i = 0; i < c.size(); i++)
    {
      VH_INITIALIZED(c[i]);
      o[i].delta_s = c[i].delta_s, o[i].kappa = c[i].kappa, o[i].sigma = c[i].sigma;
    }
    return o;
  }
  Path path(const State &a, const State &b) const override
  {
    return outv<State>(t.get_path(in(a), in(b)));
  }
  std::vector<State_With_Covariance> path_cov(const State_With_Covariance &a, const State &b) const override
  {
    return outv<State_With_Covariance>(t.get_path_with_covariance(in(a), in(b)));
  }
  Path integrate(const State &a, const Controls &c) const override
  {
    return outv<State>(t.integrate(in(a), in(c)));
  }
  std::vector<State_With_Covariance> integrate_cov(const State_With_Covariance &a, const Controls &c) const override
  {
    return outv<State_With_Covariance>(t.integrate_with_covariance(in(a), in(c)));
  }
  State interpolate(const State &a, const Controls &c, double u) const override
  {
    return out(t.interpolate(in(a), in(c), u));
  }
  void set_filter(const Motion_Noise &m, const Measurement_Noise &z, const Controller &k) override
  {
    NS::Motion_Noise mm;
    mm.alpha1 = m.alpha1, mm.alpha2 = m.alpha2, mm.alpha3 = m.alpha3, mm.alpha4 = m.alpha4;
    NS::Measurement_Noise zz;
    zz.std_x = z.std_x, zz.std_y = z.std_y, zz.std_theta = z.std_theta;
    NS::Controller kk;
    kk.k1 = k.k1, kk.k2 = k.k2, kk.k3 = k.k3;
    t.set_filter_parameters(mm, zz, kk);
  }
};
}  // namespace
std::unique_ptr<Space> MAKE(int id, double k, double s, double ds)
{
  typedef std::unique_ptr<Space> P;
  switch (id)
  {
    case CC_D_F: return P(new SpaceW<NS::CC_Dubins_State_Space>(k, s, ds, true));
    case CC_D_B: return P(new SpaceW<NS::CC_Dubins_State_Space>(k, s, ds, false));
    case CC00_D_F: return P(new SpaceW<NS::CC00_Dubins_State_Space>(k, s, ds, true));
    case CC00_D_B: return P(new SpaceW<NS::CC00_Dubins_State_Space>(k, s, ds, false));
    case CC0PM_D_F: return P(new SpaceW<NS::CC0pm_Dubins_State_Space>(k, s, ds, true));
    case CC0PM_D_B: return P(new SpaceW<NS::CC0pm_Dubins_State_Space>(k, s, ds, false));
    case CCPM0_D_F: return P(new SpaceW<NS::CCpm0_Dubins_State_Space>(k, s, ds, true));
    case CCPM0_D_B: return P(new SpaceW<NS::CCpm0_Dubins_State_Space>(k, s, ds, false));
    case CCPMPM_D_F: return P(new SpaceW<NS::CCpmpm_Dubins_State_Space>(k, s, ds, true));
    case CCPMPM_D_B: return P(new SpaceW<NS::CCpmpm_Dubins_State_Space>(k, s, ds, false));
    case DUBINS_F: return P(new SpaceW<NS::Dubins_State_Space>(k, ds, true));
    case DUBINS_B: return P(new SpaceW<NS::Dubins_State_Space>(k, ds, false));
    case CC00_RS: return P(new SpaceW<NS::CC00_Reeds_Shepp_State_Space>(k, s, ds));
    case HC_RS: return P(new SpaceW<NS::HC_Reeds_Shepp_State_Space>(k, s, ds));
    case HC00_RS: return P(new SpaceW<NS::HC00_Reeds_Shepp_State_Space>(k, s, ds));
    case HC0PM_RS: return P(new SpaceW<NS::HC0pm_Reeds_Shepp_State_Space>(k, s, ds));
    case HCPM0_RS: return P(new SpaceW<NS::HCpm0_Reeds_Shepp_State_Space>(k, s, ds));
    case HCPMPM_RS: return P(new SpaceW<NS::HCpmpm_Reeds_Shepp_State_Space>(k, s, ds));
    case RS: return P(new SpaceW<NS::Reeds_Shepp_State_Space>(k, ds));
  }
  return P();
}

#ifdef MAKE_BY_BASE
// the same function with the default step size and driving direction (forwards)
std::unique_ptr<Space> make_space_default(int id, double k, double s)
{
  typedef std::unique_ptr<Space> P;
  switch (id)
  {
    case CC_D_F: return P(new SpaceW<NS::CC_Dubins_State_Space>(k, s));
    case CC00_D_F: return P(new SpaceW<NS::CC00_Dubins_State_Space>(k, s));
    case CC0PM_D_F: return P(new SpaceW<NS::CC0pm_Dubins_State_Space>(k, s));
    case CCPM0_D_F: return P(new SpaceW<NS::CCpm0_Dubins_State_Space>(k, s));
    case CCPMPM_D_F: return P(new SpaceW<NS::CCpmpm_Dubins_State_Space>(k, s));
    case DUBINS_F: return P(new SpaceW<NS::Dubins_State_Space>(k));
    case CC00_RS: return P(new SpaceW<NS::CC00_Reeds_Shepp_State_Space>(k, s));
    case HC_RS: return P(new SpaceW<NS::HC_Reeds_Shepp_State_Space>(k, s));
    case HC00_RS: return P(new SpaceW<NS::HC00_Reeds_Shepp_State_Space>(k, s));
    case HC0PM_RS: return P(new SpaceW<NS::HC0pm_Reeds_Shepp_State_Space>(k, s));
    case HCPM0_RS: return P(new SpaceW<NS::HCpm0_Reeds_Shepp_State_Space>(k, s));
    case HCPMPM_RS: return P(new SpaceW<NS::HCpmpm_Reeds_Shepp_State_Space>(k, s));
    case RS: return P(new SpaceW<NS::Reeds_Shepp_State_Space>(k));
  }
  return P();
}

// the same function, used and destroyed through the base class of the continuous-curvature functions
std::unique_ptr<Space> MAKE_BY_BASE(int id, double k, double s, double ds)
{
  typedef std::unique_ptr<Space> P;
  typedef NS::HC_CC_State_Space B;
  switch (id)
  {
    case CC_D_F: return P(new SpaceW<NS::CC_Dubins_State_Space, B>(k, s, ds, true));
    case CC_D_B: return P(new SpaceW<NS::CC_Dubins_State_Space, B>(k, s, ds, false));
    case CC00_D_F: return P(new SpaceW<NS::CC00_Dubins_State_Space, B>(k, s, ds, true));
    case CC00_D_B: return P(new SpaceW<NS::CC00_Dubins_State_Space, B>(k, s, ds, false));
    case CC0PM_D_F: return P(new SpaceW<NS::CC0pm_Dubins_State_Space, B>(k, s, ds, true));
    case CC0PM_D_B: return P(new SpaceW<NS::CC0pm_Dubins_State_Space, B>(k, s, ds, false));
    case CCPM0_D_F: return P(new SpaceW<NS::CCpm0_Dubins_State_Space, B>(k, s, ds, true));
    case CCPM0_D_B: return P(new SpaceW<NS::CCpm0_Dubins_State_Space, B>(k, s, ds, false));
    case CCPMPM_D_F: return P(new SpaceW<NS::CCpmpm_Dubins_State_Space, B>(k, s, ds, true));
    case CCPMPM_D_B: return P(new SpaceW<NS::CCpmpm_Dubins_State_Space, B>(k, s, ds, false));
    case CC00_RS: return P(new SpaceW<NS::CC00_Reeds_Shepp_State_Space, B>(k, s, ds));
    case HC_RS: return P(new SpaceW<NS::HC_Reeds_Shepp_State_Space, B>(k, s, ds));
    case HC00_RS: return P(new SpaceW<NS::HC00_Reeds_Shepp_State_Space, B>(k, s, ds));
    case HC0PM_RS: return P(new SpaceW<NS::HC0pm_Reeds_Shepp_State_Space, B>(k, s, ds));
    case HCPM0_RS: return P(new SpaceW<NS::HCpm0_Reeds_Shepp_State_Space, B>(k, s, ds));
    case HCPMPM_RS: return P(new SpaceW<NS::HCpmpm_Reeds_Shepp_State_Space, B>(k, s, ds));
  }
  return MAKE(id, k, s, ds);
}
#endif
