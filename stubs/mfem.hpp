// Stand-in for the MFEM library: the part of its interface the solver uses, with the documented
// behaviour written out for the numeric containers and table-driven stand-ins for meshes, spaces and
// forms. Everything in here is an assumed contract of the verification (MFEM itself is not verified).
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <mpi.h>
#include "verif.h"

#define MFEM_ASSERT(c, m)
#define MFEM_VERIFY(c, m) do { if (!(c)) throw std::runtime_error("MFEM_VERIFY"); } while (0)
#define MFEM_ABORT(m) throw std::runtime_error("MFEM_ABORT")
#define MFEM_HOST_DEVICE
#define MFEM_DEVICE
#define MFEM_USE_MPI
#define MFEM_FORALL(i, N, ...) for (int i = 0; i < (N); i++) { __VA_ARGS__ }

namespace mfem {

using real_t = double;
using std::real;
static std::ostream& out = std::cout;
static std::ostream& err = std::cerr;

inline void mfem_error(const char* = nullptr) { throw std::runtime_error("mfem_error"); }

template <class F> void forall(int n, F&& f) { for (int i = 0; i < n; i++) f(i); }

enum class MemoryType { HOST, DEVICE, HOST_32, HOST_64, MANAGED };
enum class MemoryClass { HOST, DEVICE };

template <class T> class Memory {
public:
	T* p = nullptr;
	int cap = 0;
	bool own = false;
	Memory() = default;
	explicit Memory(int n) : p(new T[n]), cap(n), own(true) {}
	Memory(T* q, int n, bool o) : p(q), cap(n), own(o) {}
	void SetHostPtrOwner(bool o) { own = o; }
	void SetDevicePtrOwner(bool) {}
	void MakeAlias(const Memory& b, int off, int n) { p = b.p + off; cap = n; own = false; }
	operator T*() { return p; }
	operator const T*() const { return p; }
	T* HostReadWrite() { return p; }
	const T* HostRead() const { return p; }
	bool Empty() const { return p == nullptr; }
};

namespace vfdetail {
template <class T> T* fresh(int n)
{
#ifdef VF_SYMBOLIC
	return new T[n];
#else
	T* p = new T[n > 0 ? n : 1]();
	if constexpr (std::is_same_v<T, double>) for (int i = 0; i < n; i++) p[i] = -7.31e77;	// unspecified contents
	return p;
#endif
}
}

// ---------------------------------------------------------------- Array
template <class T> class Array {
	T* data_ = nullptr;
	int size_ = 0, cap_ = 0;
	bool own_ = true;
	void need(int n)
	{
#ifdef VF_SYMBOLIC
		if (!data_) { data_ = static_cast<T*>(vf_unbounded(sizeof(T))); own_ = true; }
#else
		if (n <= cap_) return;
		int c = n > 2 * cap_ ? n : 2 * cap_;
		T* q = new T[c]();
		for (int i = 0; i < size_; i++) q[i] = data_[i];
		if (own_) delete[] data_;
		data_ = q; cap_ = c; own_ = true;
#endif
	}
public:
	using value_type = T;
	Array() {}
	explicit Array(int n) { need(n); size_ = n; }
	Array(T* d, int n) : data_(d), size_(n), cap_(n), own_(false) {}
	Array(const Array& o) { *this = o; }
	Array(Array&& o) noexcept { Swap(o); }
	Array(std::initializer_list<T> l) { for (const T& x : l) Append(x); }
	template <int N> Array(const T (&v)[N]) { for (int i = 0; i < N; i++) Append(v[i]); }
	~Array() { if (own_) { ::operator delete(static_cast<void*>(data_)); } }
	Array& operator=(const Array& o) { if (this != &o) { need(o.size_); size_ = o.size_; for (int i = 0; i < o.size_; i++) data_[i] = o.data_[i]; } return *this; }
	Array& operator=(Array&& o) noexcept { Swap(o); return *this; }
	Array& operator=(const T& v) { for (int i = 0; i < size_; i++) data_[i] = v; return *this; }
	void Swap(Array& o) { std::swap(data_, o.data_); std::swap(size_, o.size_); std::swap(cap_, o.cap_); std::swap(own_, o.own_); }
	int Size() const { return size_; }
	int Capacity() const { return cap_; }
	void Reserve(int n) { need(n); }
	void SetSize(int n) { need(n); size_ = n; }
	void SetSize(int n, const T& v) { need(n); for (int i = size_; i < n; i++) data_[i] = v; size_ = n; }
	int Append(const T& v) { T c(v); need(size_ + 1); data_[size_] = c; size_++; return size_; }
	int Append(const T* v, int n) { for (int i = 0; i < n; i++) Append(v[i]); return size_; }
	template <class B, class = std::enable_if_t<std::is_same_v<B, T>>> int Append(const Array<B>& o) { int n = o.size_; need(size_ + n); for (int i = 0; i < n; i++) data_[size_ + i] = o.data_[i]; size_ += n; return size_; }
	int Prepend(const T& v) { Append(v); for (int i = size_ - 1; i > 0; i--) data_[i] = data_[i - 1]; data_[0] = v; return size_; }
	int Union(const T& v) { int i = 0; while (i < size_ && data_[i] != v) i++; if (i == size_) Append(v); return i; }
	int Find(const T& v) const { for (int i = 0; i < size_; i++) if (data_[i] == v) return i; return -1; }
	int FindSorted(const T& v) const { return Find(v); }
	void DeleteFirst(const T& v) { for (int i = 0; i < size_; i++) if (data_[i] == v) { for (i++; i < size_; i++) data_[i - 1] = data_[i]; size_--; return; } }
	void DeleteLast() { if (size_ > 0) size_--; }
	void DeleteAll() { size_ = 0; }
	void LoseData() { data_ = nullptr; size_ = 0; cap_ = 0; }
	void MakeRef(const Array& o) { data_ = o.data_; size_ = o.size_; cap_ = o.cap_; own_ = false; }
	void MakeRef(T* d, int n) { data_ = d; size_ = n; cap_ = n; own_ = false; }
	void Copy(Array& o) const { o = *this; }
	T& Last() { return data_[size_ - 1]; }
	const T& Last() const { return data_[size_ - 1]; }
	T& operator[](int i) { return data_[i]; }
	const T& operator[](int i) const { return data_[i]; }
	T* GetData() { return data_; }
	const T* GetData() const { return data_; }
	operator T*() { return data_; }
	operator const T*() const { return data_; }
	T* begin() { return data_; }
	T* end() { return data_ + size_; }
	const T* begin() const { return data_; }
	const T* end() const { return data_ + size_; }
	const T* Read(bool = true) const { return data_; }
	const T* HostRead() const { return data_; }
	T* Write(bool = true) { return data_; }
	T* HostWrite() { return data_; }
	T* ReadWrite(bool = true) { return data_; }
	T* HostReadWrite() { return data_; }
	T Max() const { T m = data_[0]; for (int i = 1; i < size_; i++) if (m < data_[i]) m = data_[i]; return m; }
	T Min() const { T m = data_[0]; for (int i = 1; i < size_; i++) if (data_[i] < m) m = data_[i]; return m; }
	T Sum() const { T s = T(0); for (int i = 0; i < size_; i++) s += data_[i]; return s; }
	void Sort() { std::sort(data_, data_ + size_); }
	void Unique() { size_ = int(std::unique(data_, data_ + size_) - data_); }
	int IsSorted() const { for (int i = 1; i < size_; i++) if (data_[i] < data_[i - 1]) return 0; return 1; }
	bool operator==(const Array& o) const { if (size_ != o.size_) return false; for (int i = 0; i < size_; i++) if (!(data_[i] == o.data_[i])) return false; return true; }
	bool operator!=(const Array& o) const { return !(*this == o); }
	void GetSubArray(int off, int n, Array& sa) const { sa.SetSize(n); for (int i = 0; i < n; i++) sa[i] = data_[off + i]; }
	void UseDevice(bool) const {}
	void Print(std::ostream& = out, int = 4) const {}
	bool IsEmpty() const { return size_ == 0; }
};

class Table {
public:
	std::vector<int> I, J;
	int rows = 0;
	int Size() const { return rows; }
	int RowSize(int i) const { return I[i + 1] - I[i]; }
	void GetRow(int i, Array<int>& r) const { r.SetSize(RowSize(i)); for (int k = 0; k < r.Size(); k++) r[k] = J[I[i] + k]; }
	const int* GetRow(int i) const { return &J[I[i]]; }
	int* GetRow(int i) { return &J[I[i]]; }
	int* GetI() { return I.data(); }
	int* GetJ() { return J.data(); }
	const int* GetI() const { return I.data(); }
	const int* GetJ() const { return J.data(); }
	void Finalize() {} int Size_of_connections() const { return I[rows]; }
};

// ---------------------------------------------------------------- Vector
class Vector {
protected:
	double* data = nullptr;
	int size = 0;
	int cap = 0;
	bool own = false;
	mutable bool dev = false;
	mutable Memory<double> mem_;
public:
	Vector() {}
	explicit Vector(int n) { SetSize(n); }
	Vector(const Vector& o) { SetSize(o.size); for (int i = 0; i < o.size; i++) data[i] = o.data[i]; }
	Vector(Vector&& o) noexcept { Swap(o); }
	Vector(double* d, int n) : data(d), size(n), cap(n) {}
	Vector(Vector& base, int off, int n) : data(base.data + off), size(n), cap(n) {}
	template <class C, int N> explicit Vector(const C (&v)[N]) { SetSize(N); for (int i = 0; i < N; i++) data[i] = v[i]; }
	virtual ~Vector() { if (own) delete[] data; }
	Vector& operator=(const Vector& o) { if (this != &o) { SetSize(o.size); for (int i = 0; i < o.size; i++) data[i] = o.data[i]; } return *this; }
	Vector& operator=(Vector&& o) { if (this != &o) { if (own || !data) { Swap(o); } else { *this = static_cast<const Vector&>(o); } } return *this; }
	Vector& operator=(double v) { for (int i = 0; i < size; i++) data[i] = v; return *this; }
	Vector& operator=(const double* v) { for (int i = 0; i < size; i++) data[i] = v[i]; return *this; }
	void Swap(Vector& o) { std::swap(data, o.data); std::swap(size, o.size); std::swap(cap, o.cap); std::swap(own, o.own); }
	void SetSize(int n) {
		if (n == size) return;
		if (n <= cap) { size = n; return; }
		if (own) delete[] data;
		data = vfdetail::fresh<double>(n); own = true; size = n; cap = n;
	}
	void SetSize(int n, MemoryType) { SetSize(n); }
	void SetData(double* d) { if (own) delete[] data; data = d; own = false; cap = size; }
	void SetDataAndSize(double* d, int n) { if (own) delete[] data; data = d; size = n; cap = n; own = false; }
	void NewDataAndSize(double* d, int n) { SetDataAndSize(d, n); }
	void MakeRef(Vector& b, int off, int n) { if (own) delete[] data; data = b.data + off; size = n; cap = n; own = false; }
	void MakeRef(Vector& b, int off) { if (own) delete[] data; data = b.data + off; own = false; cap = size; }
	void MakeDataOwner() { own = true; }
	void Destroy() { if (own) delete[] data; data = nullptr; size = cap = 0; own = false; }
	int Size() const { return size; }
	int Capacity() const { return cap; }
	bool OwnsData() const { return own; }
	double* GetData() const { return data; }
	operator double*() { return data; }
	operator const double*() const { return data; }
	double* begin() { return data; } double* end() { return data + size; }
	const double* begin() const { return data; } const double* end() const { return data + size; }
	Memory<double>& GetMemory() { mem_ = Memory<double>(data, size, false); return mem_; }
	const Memory<double>& GetMemory() const { mem_ = Memory<double>(data, size, false); return mem_; }
	void UseDevice(bool d) const { dev = d; }
	bool UseDevice() const { return dev; }
	const double* Read(bool = true) const { return data; } const double* HostRead() const { return data; }
	double* Write(bool = true) { return data; } double* HostWrite() { return data; }
	double* ReadWrite(bool = true) { return data; } double* HostReadWrite() { return data; }
	void SyncMemory(const Vector&) const {} void SyncAliasMemory(const Vector&) const {}
	double& Elem(int i) { return data[i]; } const double& Elem(int i) const { return data[i]; }
	double& operator()(int i) { return data[i]; } const double& operator()(int i) const { return data[i]; }
	double& operator[](int i) { return data[i]; } const double& operator[](int i) const { return data[i]; }
	double operator*(const double* v) const { double s = 0.0; for (int i = 0; i < size; i++) s += data[i] * v[i]; return s; }
	double operator*(const Vector& v) const { double s = 0.0; for (int i = 0; i < size; i++) s += data[i] * v.data[i]; return s; }
	Vector& operator*=(double c) { for (int i = 0; i < size; i++) data[i] *= c; return *this; }
	Vector& operator*=(const Vector& v) { for (int i = 0; i < size; i++) data[i] *= v.data[i]; return *this; }
	Vector& operator/=(double c) { for (int i = 0; i < size; i++) data[i] /= c; return *this; }
	Vector& operator/=(const Vector& v) { for (int i = 0; i < size; i++) data[i] /= v.data[i]; return *this; }
	Vector& operator+=(double c) { for (int i = 0; i < size; i++) data[i] += c; return *this; }
	Vector& operator+=(const Vector& v) { for (int i = 0; i < size; i++) data[i] += v.data[i]; return *this; }
	Vector& operator-=(double c) { for (int i = 0; i < size; i++) data[i] -= c; return *this; }
	Vector& operator-=(const Vector& v) { for (int i = 0; i < size; i++) data[i] -= v.data[i]; return *this; }
	Vector& Add(double a, const Vector& v) { for (int i = 0; i < size; i++) data[i] += a * v.data[i]; return *this; }
	Vector& Set(double a, const Vector& v) { for (int i = 0; i < size; i++) data[i] = a * v.data[i]; return *this; }
	void SetVector(const Vector& v, int off) { for (int i = 0; i < v.size; i++) data[off + i] = v.data[i]; }
	void AddSubVector(const Vector& v, int off) { for (int i = 0; i < v.size; i++) data[off + i] += v.data[i]; }
	void Neg() { for (int i = 0; i < size; i++) data[i] = -data[i]; }
	void Reciprocal() { for (int i = 0; i < size; i++) data[i] = 1.0 / data[i]; }
	void Abs() { for (int i = 0; i < size; i++) data[i] = std::abs(data[i]); }
	double Norml2() const { double s = 0.0; for (int i = 0; i < size; i++) s += data[i] * data[i]; return std::sqrt(s); }
	double Normlinf() const { double m = 0.0; for (int i = 0; i < size; i++) m = std::max(m, std::abs(data[i])); return m; }
	double Norml1() const { double s = 0.0; for (int i = 0; i < size; i++) s += std::abs(data[i]); return s; }
	double Sum() const { double s = 0.0; for (int i = 0; i < size; i++) s += data[i]; return s; }
	double Max() const { double m = data[0]; for (int i = 1; i < size; i++) if (data[i] > m) m = data[i]; return m; }
	double Min() const { double m = data[0]; for (int i = 1; i < size; i++) if (data[i] < m) m = data[i]; return m; }
	double DistanceSquaredTo(const double* p) const { double s = 0.0; for (int i = 0; i < size; i++) s += (data[i] - p[i]) * (data[i] - p[i]); return s; }
	double DistanceTo(const double* p) const { return std::sqrt(DistanceSquaredTo(p)); }
	double DistanceTo(const Vector& p) const { return std::sqrt(DistanceSquaredTo(p.data)); }
	double DistanceSquaredTo(const Vector& p) const { return DistanceSquaredTo(p.data); }
	void GetSubVector(const Array<int>& dofs, Vector& v) const { v.SetSize(dofs.Size()); for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; v.data[i] = j >= 0 ? data[j] : -data[-1 - j]; } }
	void GetSubVector(const Array<int>& dofs, double* v) const { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; v[i] = j >= 0 ? data[j] : -data[-1 - j]; } }
	void SetSubVector(const Array<int>& dofs, double v) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) data[j] = v; else data[-1 - j] = -v; } }
	void SetSubVector(const Array<int>& dofs, const Vector& v) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) data[j] = v.data[i]; else data[-1 - j] = -v.data[i]; } }
	void SetSubVector(const Array<int>& dofs, const double* v) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) data[j] = v[i]; else data[-1 - j] = -v[i]; } }
	void AddElementVector(const Array<int>& dofs, const Vector& v) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) data[j] += v.data[i]; else data[-1 - j] -= v.data[i]; } }
	void AddElementVector(const Array<int>& dofs, double a, const Vector& v) { for (int i = 0; i < dofs.Size(); i++) { int j = dofs[i]; if (j >= 0) data[j] += a * v.data[i]; else data[-1 - j] -= a * v.data[i]; } }
	void Randomize(int = 0) { for (int i = 0; i < size; i++) data[i] = vf_ufi1("randomize", i); }
	void Print(std::ostream& = out, int = 8) const {}
	void Load(std::istream&, int) {}
	int CheckFinite() const { return 0; }
	void cross3D(const Vector& v, Vector& w) const { w(0) = data[1] * v(2) - data[2] * v(1); w(1) = data[2] * v(0) - data[0] * v(2); w(2) = data[0] * v(1) - data[1] * v(0); }
};
inline double InnerProduct(const Vector& x, const Vector& y) { return x * y; }
inline double InnerProduct(MPI_Comm, const Vector& x, const Vector& y) { return x * y; }
inline void add(const Vector& a, const Vector& b, Vector& c) { for (int i = 0; i < c.Size(); i++) c(i) = a(i) + b(i); }
inline void add(const Vector& a, double s, const Vector& b, Vector& c) { for (int i = 0; i < c.Size(); i++) c(i) = a(i) + s * b(i); }
inline void add(double s, const Vector& a, double t, const Vector& b, Vector& c) { for (int i = 0; i < c.Size(); i++) c(i) = s * a(i) + t * b(i); }
inline void subtract(const Vector& a, const Vector& b, Vector& c) { for (int i = 0; i < c.Size(); i++) c(i) = a(i) - b(i); }
inline std::ostream& operator<<(std::ostream& o, const Vector&) { return o; }

// ---------------------------------------------------------------- matrices
class Operator {
protected:
	int height = 0, width = 0;
public:
	enum Type { ANY_TYPE };
	explicit Operator(int s = 0) : height(s), width(s) {}
	Operator(int h, int w) : height(h), width(w) {}
	virtual ~Operator() {}
	int Height() const { return height; } int NumRows() const { return height; }
	int Width() const { return width; } int NumCols() const { return width; }
	int Size() const { return width; }
	virtual void Mult(const Vector&, Vector&) const { throw std::runtime_error("Mult"); }
	virtual void MultTranspose(const Vector&, Vector&) const { throw std::runtime_error("MultTranspose"); }
	virtual void AddMult(const Vector& x, Vector& y, const double a = 1.0) const { Vector z(y.Size()); Mult(x, z); y.Add(a, z); }
};
class Matrix : public Operator { public: using Operator::Operator; };
class DenseMatrix : public Matrix {
	Vector d_;
	double* p_ = nullptr;
public:
	DenseMatrix() : Matrix(0) {}
	explicit DenseMatrix(int s) : Matrix(s) { SetSize(s); *this = 0.0; }
	DenseMatrix(int h, int w) : Matrix(h, w) { SetSize(h, w); *this = 0.0; }
	DenseMatrix(double* d, int h, int w) : Matrix(h, w), p_(d) {}
	DenseMatrix(const DenseMatrix& o) : Matrix(o.height, o.width), d_(o.height * o.width) { p_ = d_.GetData(); for (int i = 0; i < height * width; i++) p_[i] = o.p_[i]; }
	DenseMatrix& operator=(const DenseMatrix& o) { if (this != &o) { SetSize(o.height, o.width); for (int i = 0; i < height * width; i++) p_[i] = o.p_[i]; } return *this; }
	DenseMatrix& operator=(double c) { for (int i = 0; i < height * width; i++) p_[i] = c; return *this; }
	DenseMatrix& operator=(const double* c) { for (int i = 0; i < height * width; i++) p_[i] = c[i]; return *this; }
	void SetSize(int s) { SetSize(s, s); }
	void SetSize(int h, int w) { height = h; width = w; d_.SetSize(h * w); p_ = d_.GetData(); }
	void UseExternalData(double* d, int h, int w) { p_ = d; height = h; width = w; }
	double* Data() const { return p_; } double* GetData() const { return p_; }
	operator double*() const { return p_; }
	double* GetColumn(int c) { return p_ + c * height; } const double* GetColumn(int c) const { return p_ + c * height; }
	void GetColumn(int c, Vector& v) const { v.SetSize(height); for (int i = 0; i < height; i++) v(i) = p_[i + c * height]; }
	void GetColumnReference(int c, Vector& v) { v.SetDataAndSize(p_ + c * height, height); }
	void GetRow(int r, Vector& v) const { v.SetSize(width); for (int j = 0; j < width; j++) v(j) = p_[r + j * height]; }
	void SetRow(int r, const Vector& v) { for (int j = 0; j < width; j++) p_[r + j * height] = v(j); }
	void SetCol(int c, const Vector& v) { for (int i = 0; i < height; i++) p_[i + c * height] = v(i); }
	double& operator()(int i, int j) { return p_[i + j * height]; } const double& operator()(int i, int j) const { return p_[i + j * height]; }
	double& Elem(int i, int j) { return p_[i + j * height]; } const double& Elem(int i, int j) const { return p_[i + j * height]; }
	DenseMatrix& operator*=(double c) { for (int i = 0; i < height * width; i++) p_[i] *= c; return *this; }
	DenseMatrix& operator+=(const DenseMatrix& o) { for (int i = 0; i < height * width; i++) p_[i] += o.p_[i]; return *this; }
	DenseMatrix& operator-=(const DenseMatrix& o) { for (int i = 0; i < height * width; i++) p_[i] -= o.p_[i]; return *this; }
	void Add(double c, const DenseMatrix& o) { for (int i = 0; i < height * width; i++) p_[i] += c * o.p_[i]; }
	void Set(double c, const DenseMatrix& o) { SetSize(o.height, o.width); for (int i = 0; i < height * width; i++) p_[i] = c * o.p_[i]; }
	void Mult(const Vector& x, Vector& y) const override { for (int i = 0; i < height; i++) { double s = 0.0; for (int j = 0; j < width; j++) s += p_[i + j * height] * x(j); y(i) = s; } }
	void Mult(const double* x, double* y) const { for (int i = 0; i < height; i++) { double s = 0.0; for (int j = 0; j < width; j++) s += p_[i + j * height] * x[j]; y[i] = s; } }
	void MultTranspose(const Vector& x, Vector& y) const override { for (int j = 0; j < width; j++) { double s = 0.0; for (int i = 0; i < height; i++) s += p_[i + j * height] * x(i); y(j) = s; } }
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { for (int i = 0; i < height; i++) { double s = 0.0; for (int j = 0; j < width; j++) s += p_[i + j * height] * x(j); y(i) += a * s; } }
	double Det() const {
		const double* m = p_;
		if (height == 1) return m[0];
		if (height == 2) return m[0] * m[3] - m[1] * m[2];
		return m[0] * (m[4] * m[8] - m[5] * m[7]) + m[3] * (m[2] * m[7] - m[1] * m[8]) + m[6] * (m[1] * m[5] - m[2] * m[4]);
	}
	void Diag(double c, int n) { SetSize(n); *this = 0.0; for (int i = 0; i < n; i++) p_[i + i * n] = c; }
	void Transpose() { DenseMatrix t(width, height); for (int i = 0; i < height; i++) for (int j = 0; j < width; j++) t(j, i) = (*this)(i, j); *this = t; }
	void Transpose(const DenseMatrix& a) { SetSize(a.width, a.height); for (int i = 0; i < height; i++) for (int j = 0; j < width; j++) (*this)(i, j) = a(j, i); }
	void Invert() { throw std::runtime_error("DenseMatrix::Invert"); }
	double FNorm() const { double s = 0.0; for (int i = 0; i < height * width; i++) s += p_[i] * p_[i]; return std::sqrt(s); }
	double MaxMaxNorm() const { double m = 0.0; for (int i = 0; i < height * width; i++) m = std::max(m, std::abs(p_[i])); return m; }
	double Trace() const { double s = 0.0; for (int i = 0; i < height; i++) s += p_[i + i * height]; return s; }
	void Print(std::ostream& = out, int = 4) const {}
	void PrintMatlab(std::ostream& = out) const {}
	void CopyMN(const DenseMatrix& a, int ro, int co) { for (int j = 0; j < a.width; j++) for (int i = 0; i < a.height; i++) (*this)(ro + i, co + j) = a(i, j); }
	void AddMatrix(const DenseMatrix& a, int ro, int co) { for (int j = 0; j < a.width; j++) for (int i = 0; i < a.height; i++) (*this)(ro + i, co + j) += a(i, j); }
	void AddMatrix(double c, const DenseMatrix& a, int ro, int co) { for (int j = 0; j < a.width; j++) for (int i = 0; i < a.height; i++) (*this)(ro + i, co + j) += c * a(i, j); }
	void Threshold(double e) { for (int i = 0; i < height * width; i++) if (std::abs(p_[i]) <= e) p_[i] = 0.0; }
	void ClearExternalData() {}
	int TotalSize() const { return width * height; }
};
inline void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a) { for (int i = 0; i < a.Height(); i++) for (int j = 0; j < a.Width(); j++) { double s = 0.0; for (int k = 0; k < b.Width(); k++) s += b(i, k) * c(k, j); a(i, j) = s; } }
inline void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& R) { for (int i = 0; i < R.Height(); i++) for (int j = 0; j < R.Width(); j++) { double s = 0.0; for (int k = 0; k < A.Width(); k++) s += A(i, k) * B(j, k); R(i, j) = s; } }
inline void AddMult_a_VWt(double a, const Vector& v, const Vector& w, DenseMatrix& R) { for (int i = 0; i < v.Size(); i++) for (int j = 0; j < w.Size(); j++) R(i, j) += a * v(i) * w(j); }
inline void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& R) { AddMult_a_VWt(1.0, v, w, R); }
inline void MultVWt(const Vector& v, const Vector& w, DenseMatrix& R) { R.SetSize(v.Size(), w.Size()); R = 0.0; AddMult_a_VWt(1.0, v, w, R); }
inline void CalcOrtho(const DenseMatrix& J, Vector& n)
{
	if (J.Height() == 1) { n(0) = 1.0; }
	else if (J.Height() == 2) { n(0) = J(1, 0); n(1) = -J(0, 0); }
	else { n(0) = J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1); n(1) = J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1); n(2) = J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1); }
}
inline void CalcAdjugate(const DenseMatrix& a, DenseMatrix& r)
{
	int n = a.Height();
	if (n == 1) r(0, 0) = 1.0;
	else if (n == 2) { r(0, 0) = a(1, 1); r(0, 1) = -a(0, 1); r(1, 0) = -a(1, 0); r(1, 1) = a(0, 0); }
	else for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
		int i1 = (j + 1) % 3, i2 = (j + 2) % 3, j1 = (i + 1) % 3, j2 = (i + 2) % 3;
		r(i, j) = a(i1, j1) * a(i2, j2) - a(i1, j2) * a(i2, j1);
	}
}
inline void CalcInverse(const DenseMatrix& a, DenseMatrix& r) { CalcAdjugate(a, r); double d = a.Det(); r *= 1.0 / d; }
class DenseMatrixInverse : public Operator {
	const DenseMatrix* a_ = nullptr;
public:
	DenseMatrixInverse(bool = false) {}
	DenseMatrixInverse(const DenseMatrix& a, bool = false) : Operator(a.Height(), a.Width()), a_(&a) {}
	DenseMatrixInverse(const DenseMatrix* a, bool = false) : Operator(a->Height(), a->Width()), a_(a) {}
	void Factor() {}
	void Factor(const DenseMatrix& a) { a_ = &a; }
	// inverse action by Cramer's rule for the sizes used in contracts
	void Mult(const Vector& x, Vector& y) const override {
		int n = a_->Height();
		if (n > 3) throw std::runtime_error("DenseMatrixInverse");
		DenseMatrix adj(n); CalcAdjugate(*a_, adj); double d = a_->Det();
		for (int i = 0; i < n; i++) { double s = 0.0; for (int j = 0; j < n; j++) s += adj(i, j) * x(j); y(i) = s / d; }
	}
	void GetInverseMatrix(DenseMatrix& r) const { r.SetSize(a_->Height()); CalcInverse(*a_, r); }
};
class DenseTensor {
	std::vector<DenseMatrix> m_;
public:
	DenseTensor() {}
	DenseTensor(int i, int j, int k) { SetSize(i, j, k); }
	void SetSize(int i, int j, int k) { m_.clear(); for (int q = 0; q < k; q++) m_.push_back(DenseMatrix(i, j)); }
	DenseMatrix& operator()(int k) { return m_[k]; } const DenseMatrix& operator()(int k) const { return m_[k]; }
	double& operator()(int i, int j, int k) { return m_[k](i, j); }
	int SizeK() const { return int(m_.size()); } int SizeI() const { return m_.empty() ? 0 : m_[0].Height(); } int SizeJ() const { return m_.empty() ? 0 : m_[0].Width(); }
};

class SparseMatrix : public Matrix {
	struct Row { std::vector<int> c; std::vector<double> v; };
	mutable std::vector<Row> rows_;
	mutable bool lil_ = true;
	mutable int* I_ = nullptr;
	mutable int* J_ = nullptr;
	mutable double* A_ = nullptr;
	Array<int> wi_; Vector wv_;
	void build() const {
		if (!lil_) return;
		int n = 0;
		for (int i = 0; i < height; i++) n += int(rows_[i].c.size());
		I_ = new int[height + 1]; J_ = new int[n > 0 ? n : 1]; A_ = new double[n > 0 ? n : 1];
		int k = 0;
		for (int i = 0; i < height; i++) { I_[i] = k; for (int q = 0; q < int(rows_[i].c.size()); q++, k++) { J_[k] = rows_[i].c[q]; A_[k] = rows_[i].v[q]; } }
		I_[height] = k;
		lil_ = false;
	}
	void open() {
		if (lil_) return;
		rows_.clear(); rows_.resize(height);
		for (int i = 0; i < height; i++) for (int k = I_[i]; k < I_[i + 1]; k++) { rows_[i].c.push_back(J_[k]); rows_[i].v.push_back(A_[k]); }
		lil_ = true;
	}
public:
	SparseMatrix() : Matrix(0) {}
	explicit SparseMatrix(int h, int w = -1) : Matrix(h, w < 0 ? h : w) { rows_.resize(h); }
	SparseMatrix(int* i, int* j, double* a, int h, int w) : Matrix(h, w), lil_(false), I_(i), J_(j), A_(a) {}
	SparseMatrix(int* i, int* j, double* a, int h, int w, bool, bool, bool) : Matrix(h, w), lil_(false), I_(i), J_(j), A_(a) {}
	SparseMatrix(const SparseMatrix& o, bool = true, MemoryType = MemoryType::HOST) : Matrix(o.height, o.width) { *this = o; }
	SparseMatrix(SparseMatrix&& o) : Matrix(o.height, o.width) { *this = o; }
	SparseMatrix& operator=(const SparseMatrix& o) {
		height = o.height; width = o.width; lil_ = true; rows_ = o.rows_;
		if (!o.lil_) {
			int n = o.I_[height];
			I_ = new int[height + 1]; J_ = new int[n > 0 ? n : 1]; A_ = new double[n > 0 ? n : 1];
			for (int i = 0; i <= height; i++) I_[i] = o.I_[i];
			for (int k = 0; k < n; k++) { J_[k] = o.J_[k]; A_[k] = o.A_[k]; }
			lil_ = false;
		}
		return *this;
	}
	void Swap(SparseMatrix& o) { SparseMatrix t(o); o = *this; *this = t; }
	void Clear() { rows_.clear(); lil_ = true; height = width = 0; }
	bool Empty() const { return height == 0; }
	bool Finalized() const { return !lil_; }
	void Finalize(int skip = 1) { Finalize(skip, false); }
	void Finalize(int, bool) { build(); }
	void UseDevice(bool) {} void UseGPUSparse(bool = true) {} void UseCuSparse(bool = true) {}
	void EnsureMultTranspose() const {}
	int* GetI() { build(); return I_; } const int* GetI() const { build(); return I_; }
	int* GetJ() { build(); return J_; } const int* GetJ() const { build(); return J_; }
	double* GetData() { build(); return A_; } const double* GetData() const { build(); return A_; }
	int* HostReadWriteI() { return GetI(); } const int* HostReadI() const { return GetI(); } const int* ReadI(bool = true) const { return GetI(); }
	int* HostReadWriteJ() { return GetJ(); } const int* HostReadJ() const { return GetJ(); } const int* ReadJ(bool = true) const { return GetJ(); }
	double* HostReadWriteData() { return GetData(); } const double* HostReadData() const { return GetData(); } const double* ReadData(bool = true) const { return GetData(); }
	int NumNonZeroElems() const { if (!lil_) return I_[height]; int n = 0; for (int i = 0; i < height; i++) n += int(rows_[i].c.size()); return n; }
	int ActualWidth() const { return width; }
	int RowSize(int i) const { return lil_ ? int(rows_[i].c.size()) : I_[i + 1] - I_[i]; }
	int MaxRowSize() const { int m = 0; for (int i = 0; i < height; i++) if (RowSize(i) > m) m = RowSize(i); return m; }
	int* GetRowColumns(int i) { build(); return J_ + I_[i]; } const int* GetRowColumns(int i) const { build(); return J_ + I_[i]; }
	double* GetRowEntries(int i) { build(); return A_ + I_[i]; } const double* GetRowEntries(int i) const { build(); return A_ + I_[i]; }
	int GetRow(int r, Array<int>& c, Vector& v) const {
		int n = RowSize(r); c.SetSize(n); v.SetSize(n);
		if (lil_) for (int k = 0; k < n; k++) { c[k] = rows_[r].c[k]; v(k) = rows_[r].v[k]; }
		else for (int k = 0; k < n; k++) { c[k] = J_[I_[r] + k]; v(k) = A_[I_[r] + k]; }
		return lil_ ? 1 : 0;
	}
	double& SearchRow(int i, int j) {
		if (lil_) {
			Row& r = rows_[i];
			for (int k = 0; k < int(r.c.size()); k++) if (r.c[k] == j) return r.v[k];
			r.c.push_back(j); r.v.push_back(0.0); return r.v.back();
		}
		for (int k = I_[i]; k < I_[i + 1]; k++) if (J_[k] == j) return A_[k];
		throw std::runtime_error("SparseMatrix: entry not in the pattern");
	}
	double& operator()(int i, int j) { for (int k = GetI()[i]; k < I_[i + 1]; k++) if (J_[k] == j) return A_[k]; throw std::runtime_error("SparseMatrix()"); }
	double Entry(int i, int j) const {
		if (lil_) { const Row& r = rows_[i]; for (int k = 0; k < int(r.c.size()); k++) if (r.c[k] == j) return r.v[k]; return 0.0; }
		double s = 0.0; for (int k = I_[i]; k < I_[i + 1]; k++) if (J_[k] == j) s += A_[k]; return s;
	}
	const double operator()(int i, int j) const { return Entry(i, j); }
	double Elem(int i, int j) const { return Entry(i, j); }
	double& Elem(int i, int j) { return SearchRow(i, j); }
	void Set(int i, int j, double a) { SearchRow(i, j) = a; }
	void Add(int i, int j, double a) { SearchRow(i, j) += a; }
	void _Add_(int i, int j, double a) { SearchRow(i, j) += a; }
	void _Set_(int i, int j, double a) { SearchRow(i, j) = a; }
	void Add(double a, const SparseMatrix& o) { for (int i = 0; i < height; i++) { Array<int> c; Vector v; o.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) Add(i, c[k], a * v(k)); } }
	SparseMatrix& operator+=(const SparseMatrix& o) { Add(1.0, o); return *this; }
	SparseMatrix& operator=(double a) { if (lil_) { for (auto& r : rows_) for (auto& x : r.v) x = a; } else for (int k = 0; k < I_[height]; k++) A_[k] = a; return *this; }
	SparseMatrix& operator*=(double a) { if (lil_) { for (auto& r : rows_) for (auto& x : r.v) x *= a; } else for (int k = 0; k < I_[height]; k++) A_[k] *= a; return *this; }
	void ScaleRow(int r, double s) { if (lil_) { for (auto& x : rows_[r].v) x *= s; } else for (int k = I_[r]; k < I_[r + 1]; k++) A_[k] *= s; }
	void AddRow(int r, const Array<int>& c, const Vector& v) { for (int k = 0; k < c.Size(); k++) Add(r, c[k], v(k)); }
	void SetRow(int r, const Array<int>& c, const Vector& v) { open(); rows_[r].c.clear(); rows_[r].v.clear(); for (int k = 0; k < c.Size(); k++) { rows_[r].c.push_back(c[k]); rows_[r].v.push_back(v(k)); } build(); }
	void AddSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int skip = 1) {
		for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) {
			int gi = r[i], gj = c[j]; double s = 1.0;
			if (gi < 0) { gi = -1 - gi; s = -s; }
			if (gj < 0) { gj = -1 - gj; s = -s; }
			Add(gi, gj, s * m(i, j));
		}
	}
	void SetSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int = 1) { for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) Set(r[i], c[j], m(i, j)); }
	void GetSubMatrix(const Array<int>& r, const Array<int>& c, DenseMatrix& m) const { m.SetSize(r.Size(), c.Size()); for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) m(i, j) = Entry(r[i], c[j]); }
	void Threshold(double tol, bool = false) {
		// entries up to the tolerance are dropped: kept here with the value zero; tolerances at rounding level change nothing
		build();
		if (tol <= 1e-15) return;
		for (int k = 0; k < I_[height]; k++) if (std::abs(A_[k]) <= tol) A_[k] = 0.0;
	}
	void SortColumnIndices() {}
	void MoveDiagonalFirst() {}
	void Mult(const Vector& x, Vector& y) const override { y = 0.0; AddMult(x, y); }
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override {
		if (lil_) { for (int i = 0; i < height; i++) { double s = 0.0; const Row& r = rows_[i]; for (int k = 0; k < int(r.c.size()); k++) s += r.v[k] * x(r.c[k]); y(i) += a * s; } return; }
		for (int i = 0; i < height; i++) { double s = 0.0; for (int k = I_[i]; k < I_[i + 1]; k++) s += A_[k] * x(J_[k]); y(i) += a * s; }
	}
	void MultTranspose(const Vector& x, Vector& y) const override { y = 0.0; for (int i = 0; i < height; i++) { Array<int> c; Vector v; GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) y(c[k]) += v(k) * x(i); } }
	void PartMult(const Array<int>& rows, const Vector& x, Vector& y) const { for (int q = 0; q < rows.Size(); q++) { int i = rows[q]; double s = 0.0; for (int k = GetI()[i]; k < I_[i + 1]; k++) s += A_[k] * x(J_[k]); y(i) = s; } }
	void PartAddMult(const Array<int>& rows, const Vector& x, Vector& y, const double a = 1.0) const { for (int q = 0; q < rows.Size(); q++) { int i = rows[q]; double s = 0.0; for (int k = GetI()[i]; k < I_[i + 1]; k++) s += A_[k] * x(J_[k]); y(i) += a * s; } }
	DenseMatrix* ToDenseMatrix() const { DenseMatrix* d = new DenseMatrix; ToDenseMatrix(*d); return d; }
	void ToDenseMatrix(DenseMatrix& d) const { d.SetSize(height, width); d = 0.0; for (int i = 0; i < height; i++) { Array<int> c; Vector v; GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) d(i, c[k]) += v(k); } }
	void GetDiag(Vector& d) const { d.SetSize(height); for (int i = 0; i < height; i++) d(i) = Entry(i, i); }
	double MaxNorm() const { double m = 0.0; for (int i = 0; i < height; i++) { Array<int> c; Vector v; GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) m = std::max(m, std::abs(v(k))); } return m; }
	void LoseData() { I_ = J_ = nullptr; A_ = nullptr; } void SetDataOwner(bool) {} void SetGraphOwner(bool) {}
	void Print(std::ostream& = out, int = 4) const {} void PrintMatlab(std::ostream& = out) const {} void PrintMM(std::ostream& = out) const {}
	void PrintCSR(std::ostream&) const {} void PrintCSR2(std::ostream&) const {}
};
inline SparseMatrix* Mult(const SparseMatrix& a, const SparseMatrix& b, SparseMatrix* ab = nullptr)
{
	SparseMatrix* r = new SparseMatrix(a.Height(), b.Width());
	for (int i = 0; i < a.Height(); i++) {
		Array<int> ca; Vector va; a.GetRow(i, ca, va);
		for (int k = 0; k < ca.Size(); k++) { Array<int> cb; Vector vb; b.GetRow(ca[k], cb, vb); for (int j = 0; j < cb.Size(); j++) r->Add(i, cb[j], va(k) * vb(j)); }
	}
	r->Finalize();
	if (ab) { *ab = *r; delete r; return ab; }
	return r;
}
inline SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B) { SparseMatrix* r = new SparseMatrix(A.Height(), A.Width()); r->Add(a, A); r->Add(b, B); r->Finalize(); return r; }
inline SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B) { return Add(1.0, A, 1.0, B); }
inline SparseMatrix* Transpose(const SparseMatrix& A) { SparseMatrix* r = new SparseMatrix(A.Width(), A.Height()); for (int i = 0; i < A.Height(); i++) { Array<int> c; Vector v; A.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) r->Add(c[k], i, v(k)); } r->Finalize(); return r; }
class BlockMatrix; class HypreParMatrix : public Operator {}; class HypreParVector : public Vector {};

// ---------------------------------------------------------------- solvers and time integration
class TimeDependentOperator : public Operator {
protected:
	double t = 0.0;
public:
	explicit TimeDependentOperator(int n = 0, double t_ = 0.0) : Operator(n), t(t_) {}
	TimeDependentOperator(int h, int w, double t_ = 0.0) : Operator(h, w), t(t_) {}
	virtual double GetTime() const { return t; }
	virtual void SetTime(const double s) { t = s; }
	virtual void ImplicitSolve(const double, const Vector&, Vector&) { throw std::runtime_error("ImplicitSolve"); }
};
class Solver : public Operator {
public:
	bool iterative_mode;
	explicit Solver(int s = 0, bool it = false) : Operator(s), iterative_mode(it) {}
	virtual void SetOperator(const Operator&) {}
};
class IterativeSolver : public Solver {
protected:
	const Operator* oper = nullptr;
public:
	IterativeSolver() {} IterativeSolver(MPI_Comm) {}
	void SetRelTol(double) {} void SetAbsTol(double) {} void SetMaxIter(int) {} void SetPrintLevel(int) {} void SetKDim(int) {}
	void SetOperator(const Operator& o) override { oper = &o; height = width = o.Height(); }
	void SetPreconditioner(Solver&) {}
	bool GetConverged() const { return true; } int GetNumIterations() const { return 1; } double GetFinalNorm() const { return 0.0; }
};
class GMRESSolver : public IterativeSolver {
public:
	using IterativeSolver::IterativeSolver;
	// assumed: the returned vector solves the system exactly
	void Mult(const Vector& b, Vector& x) const override { for (int i = 0; i < x.Size(); i++) x(i) = vf_ufi1("gmres", i); Vector r(b.Size()); oper->Mult(x, r); for (int i = 0; i < b.Size(); i++) vf_assume(r(i) == b(i), "linear solver returns the solution"); }
};
class CGSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };
class BiCGSTABSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };
class ODESolver {
public:
	TimeDependentOperator* f = nullptr;
	static std::unique_ptr<ODESolver> Select(int) { return nullptr; }
	virtual void Init(TimeDependentOperator& o) { f = &o; }
	// assumed: one call advances the time by the step it is given (the state update is not modelled)
	virtual void Step(Vector& x, double& t, double& dt) { t += dt; }
	virtual ~ODESolver() {}
};
class RK4Solver : public ODESolver {
public:
	void Step(Vector& x, double& t, double& dt) override {
		if (!f) { t += dt; return; }
		int n = x.Size(); Vector k(n), y(n), z(n);
		f->SetTime(t); f->Mult(x, k); add(x, dt / 2, k, y); add(x, dt / 6, k, z);
		f->SetTime(t + dt / 2); f->Mult(y, k); add(x, dt / 2, k, y); z.Add(dt / 3, k);
		f->Mult(y, k); add(x, dt, k, y); z.Add(dt / 3, k);
		f->SetTime(t + dt); f->Mult(y, k); add(z, dt / 6, k, x); t += dt;
	}
};
struct RK3SSPSolver : ODESolver {}; struct RK2Solver : ODESolver { RK2Solver(double = 0.5) {} }; struct ForwardEulerSolver : ODESolver {}; struct RK6Solver : ODESolver {}; struct RK8Solver : ODESolver {};
struct BackwardEulerSolver : ODESolver {}; struct ImplicitMidpointSolver : ODESolver {}; struct TrapezoidalRuleSolver : ODESolver {};
struct SDIRK23Solver : ODESolver { SDIRK23Solver(int = 1) {} }; struct SDIRK33Solver : ODESolver {}; struct SDIRK34Solver : ODESolver {}; struct ESDIRK32Solver : ODESolver {}; struct ESDIRK33Solver : ODESolver {};

// ---------------------------------------------------------------- geometry
struct IntegrationPoint; class IntegrationRule;
class Geometry {
public:
	enum Type { INVALID = -1, POINT = 0, SEGMENT, TRIANGLE, SQUARE, TETRAHEDRON, CUBE, PRISM, PYRAMID, NUM_GEOMETRIES };
	static const int NumGeom = NUM_GEOMETRIES;
	static inline const int NumFaces[NUM_GEOMETRIES] = {0, 2, 3, 4, 4, 6, 5, 5};
	static inline const int NumVerts[NUM_GEOMETRIES] = {1, 2, 3, 4, 4, 8, 6, 5};
	static inline const int NumEdges[NUM_GEOMETRIES] = {0, 1, 3, 4, 6, 12, 9, 8};
	static inline const int Dimension[NUM_GEOMETRIES] = {0, 1, 2, 2, 3, 3, 3, 3};
	int NumBdr(int g) const { return NumFaces[g]; }
	inline const IntegrationPoint& GetCenter(int) const; inline const IntegrationRule* GetVertices(int) const;
};
inline Geometry Geometries;
struct IntegrationPoint {
	double x = 0, y = 0, z = 0, weight = 0; int index = 0;
	void Set3(double a, double b, double c) { x = a; y = b; z = c; } void Set2(double a, double b) { x = a; y = b; } void Set1w(double a, double w) { x = a; weight = w; }
	void Set(double a, double b, double c, double w) { x = a; y = b; z = c; weight = w; }
	void Set(const double* p, int dim) { x = p[0]; if (dim > 1) y = p[1]; if (dim > 2) z = p[2]; }
	void Get(double* p, int dim) const { p[0] = x; if (dim > 1) p[1] = y; if (dim > 2) p[2] = z; }
};
class IntegrationRule {
public:
	IntegrationPoint* pts = nullptr; int n = 0; int order = 0;
	IntegrationRule() {} explicit IntegrationRule(int k) : pts(new IntegrationPoint[k]), n(k) {}
	int GetNPoints() const { return n; } int Size() const { return n; } int GetOrder() const { return order; }
	IntegrationPoint& IntPoint(int i) { return pts[i]; } const IntegrationPoint& IntPoint(int i) const { return pts[i]; }
	IntegrationPoint& operator[](int i) { return pts[i]; } const IntegrationPoint& operator[](int i) const { return pts[i]; }
};
inline const IntegrationPoint& Geometry::GetCenter(int) const { static IntegrationPoint c; return c; }
inline const IntegrationRule* Geometry::GetVertices(int) const { static IntegrationRule r; return &r; }
class IntegrationRules {
public:
	// the rule handed out: set by the contract; the order asked for is recorded
	IntegrationRule* rule = nullptr; int asked_order = -1; int asked_geom = -1;
	IntegrationRule& Get(int g, int o) { asked_geom = g; asked_order = o; if (rule) return *rule; static IntegrationRule one(1); one.order = o; return one; }
};
inline IntegrationRules IntRules;

class Mesh;
class Element {
public:
	enum Type { POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID };
	static const int vf_geom[8];
	Mesh* mesh = nullptr; int id = 0; bool bdr = false, face = false;
	Element() {}
	Element(Mesh* m, int i, bool b) : mesh(m), id(i), bdr(b) {}
	inline int GetAttribute() const; inline void SetAttribute(int a); inline Type GetType() const; inline Geometry::Type GetGeometryType() const;
	inline int GetNVertices() const; inline const int* GetVertices() const; inline int* GetVertices(); inline void GetVertices(Array<int>& v) const;
	inline int GetNFaces() const; inline int GetNEdges() const; const int* GetEdgeVertices(int) const { return GetVertices(); } const int* GetFaceVertices(int) const { return GetVertices(); } inline Element* Duplicate(Mesh* m) const;
};
inline Geometry::Type vfGeomOf(int t) { switch (t) { case 0: return Geometry::POINT; case 1: return Geometry::SEGMENT; case 2: return Geometry::TRIANGLE; case 3: return Geometry::SQUARE; case 4: return Geometry::TETRAHEDRON; case 5: return Geometry::CUBE; case 6: return Geometry::PRISM; default: return Geometry::PYRAMID; } }

class ElementTransformation {
public:
	IntegrationPoint ip; DenseMatrix J; double weight = 1.0; int order_w = 0; int Attribute = 1; int ElementNo = 0; int ElementType = 0; Mesh* mesh = nullptr; Geometry::Type geom = Geometry::INVALID;
	// point-dependent data supplied by a contract: called by SetIntPoint
	void (*at)(ElementTransformation*, const IntegrationPoint*) = nullptr;
	virtual ~ElementTransformation() {}
	void SetIntPoint(const IntegrationPoint* p) { ip = *p; if (at) at(this, p); }
	const IntegrationPoint& GetIntPoint() const { return ip; }
	const DenseMatrix& Jacobian() { return J; } const DenseMatrix& AdjugateJacobian() { adj.SetSize(J.Width(), J.Height()); CalcAdjugate(J, adj); return adj; }
	const DenseMatrix& InverseJacobian() { inv.SetSize(J.Width(), J.Height()); CalcInverse(J, inv); return inv; }
	double Weight() { return weight; } int OrderW() const { return order_w; } int Order() const { return 1; } int OrderJ() const { return order_w; }
	// position of a point of an element, supplied by a contract
	static inline void (*map)(const ElementTransformation*, const IntegrationPoint&, Vector&) = nullptr;
	virtual void Transform(const IntegrationPoint& p, Vector& x) { if (map) { map(this, p, x); return; } x.SetSize(3); x(0) = p.x; x(1) = p.y; x(2) = p.z; }
	Geometry::Type GetGeometryType() const { return geom; } int GetSpaceDim() const { return J.Height(); } int GetDimension() const { return J.Width(); }
	DenseMatrix adj, inv;
};
class IsoparametricTransformation : public ElementTransformation { public: DenseMatrix pm; DenseMatrix& GetPointMat() { return pm; } };
class InverseElementTransformation {};
class FaceElementTransformations : public IsoparametricTransformation {
public:
	int Elem1No = -1, Elem2No = -1; int face = -1;
	ElementTransformation* Elem1 = nullptr; ElementTransformation* Elem2 = nullptr; ElementTransformation* Face = nullptr;
	IntegrationPoint eip1, eip2;
	int GetConfigurationMask() const { return Elem2No >= 0 ? 31 : 21; } const IntegrationPoint& GetElement1IntPoint() { return eip1; } const IntegrationPoint& GetElement2IntPoint() { return eip2; }
	void SetAllIntPoints(const IntegrationPoint* p) { SetIntPoint(p); if (Elem1) { Elem1->SetIntPoint(&eip1); } if (Elem2) { Elem2->SetIntPoint(&eip2); } }
	ElementTransformation& GetElement1Transformation() { return *Elem1; } ElementTransformation& GetElement2Transformation() { return *Elem2; }
	struct Loc { void Transform(const IntegrationPoint& a, IntegrationPoint& b) { b = a; } } Loc1, Loc2;
};

struct FunctionSpace { enum { Pk, Qk, rQk }; };
class FiniteElement {
public:
	int dof = 1, order = 1, dim = 1, space = FunctionSpace::Pk; Geometry::Type geom = Geometry::SEGMENT; IntegrationRule nodes;
	// shape functions supplied by a contract: (element, point, dof)
	double (*shape)(const FiniteElement*, const IntegrationPoint*, int) = nullptr;
	double (*dshape)(const FiniteElement*, const IntegrationPoint*, int, int) = nullptr;
	int tag = 0;
	virtual ~FiniteElement() {}
	int GetDof() const { return dof; } int GetOrder() const { return order; } int GetDim() const { return dim; } int Space() const { return space; }
	Geometry::Type GetGeomType() const { return geom; } const IntegrationRule& GetNodes() const { return nodes; }
	void CalcShape(const IntegrationPoint& p, Vector& s) const { for (int i = 0; i < dof; i++) s(i) = shape(this, &p, i); }
	void CalcDShape(const IntegrationPoint& p, DenseMatrix& d) const { for (int i = 0; i < dof; i++) for (int j = 0; j < dim; j++) d(i, j) = dshape(this, &p, i, j); }
	void CalcPhysShape(ElementTransformation& T, Vector& s) const { CalcShape(T.GetIntPoint(), s); }
};
class NodalFiniteElement : public FiniteElement { public: const Array<int>& GetLexicographicOrdering() const { return lex; } Array<int> lex; };
using ScalarFiniteElement = FiniteElement;

struct BasisType { enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, Positive = 2, OpenUniform = 3, ClosedUniform = 4, OpenHalfUniform = 5, Serendipity = 6, ClosedGL = 7, IntegratedGLL = 8, NumBasisTypes = 9 }; };
class FiniteElementCollection {
public:
	int order = 1, dim = 1, btype = 0; FiniteElement* fe = nullptr;
	static inline FiniteElement* common = nullptr; // element of a collection the sources make themselves, supplied by a contract
	virtual ~FiniteElementCollection() {}
	int GetOrder() const { return order; } int GetBasisType() const { return btype; } virtual const char* Name() const { return "L2"; }
	const FiniteElement* FiniteElementForGeometry(Geometry::Type) const { return fe; }
};
class L2_FECollection : public FiniteElementCollection {
public:
	L2_FECollection(int p, int d, int b = BasisType::GaussLegendre, int = 0) { order = p; dim = d; btype = b; }
};
using DG_FECollection = L2_FECollection;
class H1_FECollection : public FiniteElementCollection { public: H1_FECollection(int p, int d = 3, int b = BasisType::GaussLobatto) { order = p; dim = d; btype = b; } };

class Coefficient {
public:
	double time = 0.0;
	virtual ~Coefficient() {}
	virtual void SetTime(double t) { time = t; } double GetTime() { return time; }
	virtual double Eval(ElementTransformation& T, const IntegrationPoint& p) = 0;
	double Eval(ElementTransformation& T, const IntegrationPoint& p, double t) { SetTime(t); return Eval(T, p); }
};
class ConstantCoefficient : public Coefficient { public: double constant; explicit ConstantCoefficient(double c = 1.0) : constant(c) {} double Eval(ElementTransformation&, const IntegrationPoint&) override { return constant; } };
class FunctionCoefficient : public Coefficient {
public:
	std::function<double(const Vector&)> f; std::function<double(const Vector&, double)> tf;
	FunctionCoefficient(std::function<double(const Vector&)> g) : f(std::move(g)) {}
	FunctionCoefficient(std::function<double(const Vector&, double)> g) : tf(std::move(g)) {}
	double Eval(ElementTransformation& T, const IntegrationPoint& p) override { Vector x; T.Transform(p, x); return f ? f(x) : tf(x, time); }
};
class PWConstCoefficient : public Coefficient {
public:
	Vector constants;
	explicit PWConstCoefficient(int n = 0) : constants(n) { constants = 0.0; }
	PWConstCoefficient(Vector& c) { constants.SetSize(c.Size()); constants = c; }
	double& operator()(int i) { return constants(i - 1); } int GetNConst() { return constants.Size(); }
	double Eval(ElementTransformation& T, const IntegrationPoint&) override { return constants(T.Attribute - 1); }
};
class ProductCoefficient : public Coefficient { public: Coefficient *a, *b; double c = 1.0; ProductCoefficient(double x, Coefficient& B) : a(nullptr), b(&B), c(x) {} ProductCoefficient(Coefficient& A, Coefficient& B) : a(&A), b(&B) {} double Eval(ElementTransformation& T, const IntegrationPoint& p) override { return (a ? a->Eval(T, p) : c) * b->Eval(T, p); } };
class VectorCoefficient {
public:
	int vdim; double time = 0.0;
	VectorCoefficient(int v) : vdim(v) {} virtual ~VectorCoefficient() {} int GetVDim() { return vdim; } virtual void SetTime(double t) { time = t; }
	virtual void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& p) = 0;
};
class VectorConstantCoefficient : public VectorCoefficient { public: Vector vec; VectorConstantCoefficient(const Vector& v) : VectorCoefficient(v.Size()), vec(v) {} void Eval(Vector& V, ElementTransformation&, const IntegrationPoint&) override { V = vec; } };
class VectorFunctionCoefficient : public VectorCoefficient {
public:
	std::function<void(const Vector&, Vector&)> f; std::function<void(const Vector&, double, Vector&)> tf;
	VectorFunctionCoefficient(int d, std::function<void(const Vector&, Vector&)> g) : VectorCoefficient(d), f(std::move(g)) {}
	VectorFunctionCoefficient(int d, std::function<void(const Vector&, double, Vector&)> g) : VectorCoefficient(d), tf(std::move(g)) {}
	void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& p) override { Vector x; T.Transform(p, x); V.SetSize(vdim); if (f) f(x, V); else tf(x, time, V); }
};

// ---------------------------------------------------------------- mesh
// Table-driven: every query reads one of the flat tables below, which contracts fill in.
class Vertex { public: double c[3] = {0, 0, 0}; double& operator()(int i) { return c[i]; } const double& operator()(int i) const { return c[i]; } };
class GridFunction; class FiniteElementSpace; class NCMesh; class SubMesh;
class Mesh {
public:
	int Dim = 1, spaceDim = 1, NumOfElements = 0, NumOfBdrElements = 0, NumOfVertices = 0, NumOfFaces = 0, nvpe = 2, nvpb = 1;
	std::vector<int> elem_attr, bdr_attr, elem_type, bdr_type, elem_verts, bdr_verts, bdr_face, face_e1, face_e2, elem_face_I, elem_face_J, face_verts, face_ori, bdr_internal;
	std::vector<double> vert, face_normal, elem_size, elem_vol;
	int nvpf = 1;
	Array<int> attributes, bdr_attributes;
	GridFunction* nodes = nullptr; FiniteElementSpace* nodal_fes = nullptr; int curv = 1;
	std::string loaded; int ctor_gen = -1, ctor_ref = -1; bool ctor_fix = true;
	NCMesh* ncmesh = nullptr;
	Mesh() {}
	explicit Mesh(const std::string& f, int g = 0, int r = 1, bool fix = true) : loaded(f), ctor_gen(g), ctor_ref(r), ctor_fix(fix) {}
	explicit Mesh(const char* f, int g = 0, int r = 1, bool fix = true) : loaded(f), ctor_gen(g), ctor_ref(r), ctor_fix(fix) {}
	Mesh(int d, int nv, int ne, int nbe = 0, int sd = -1) : Dim(d), spaceDim(sd < 0 ? d : sd) {}
	Mesh(const Mesh&, bool = true); Mesh(Mesh&&); Mesh& operator=(const Mesh&); Mesh& operator=(Mesh&&); virtual ~Mesh() {}
	// what a file holds, supplied by a contract
	static inline Mesh* on_disk = nullptr;
	static Mesh LoadFromFile(const std::string& f, int g = 0, int r = 1, bool fix = true) { if (on_disk) { Mesh m(*on_disk); m.loaded = f; return m; } return Mesh(f, g, r, fix); }
	static Mesh LoadFromFileNoBdrFix(const std::string& f, int g = 0, int r = 1, bool fix = true) { return Mesh(f, g, r, fix); }
	static Mesh MakeCartesian1D(int n, double sx = 1.0);
	static Mesh MakeCartesian2D(int, int, Element::Type, bool = false, double = 1.0, double = 1.0, bool = true) { throw std::runtime_error("MakeCartesian2D"); }
	static Mesh MakeCartesian3D(int, int, int, Element::Type, double = 1.0, double = 1.0, double = 1.0, bool = true) { throw std::runtime_error("MakeCartesian3D"); }
	int Dimension() const { return Dim; } int SpaceDimension() const { return spaceDim; }
	int GetNE() const { return NumOfElements; } int GetNBE() const { return NumOfBdrElements; } int GetNV() const { return NumOfVertices; } int GetNumFaces() const { return NumOfFaces; } int GetNFaces() const { return NumOfFaces; } int GetNEdges() const { return NumOfFaces; }
	long long GetGlobalNE() const { return NumOfElements; }
	int GetAttribute(int i) const { return elem_attr[i]; } int GetBdrAttribute(int i) const { return bdr_attr[i]; }
	void SetAttribute(int i, int a) { elem_attr[i] = a; } void SetBdrAttribute(int i, int a) { bdr_attr[i] = a; }
	void SetAttributes() { collect(elem_attr, attributes); collect(bdr_attr, bdr_attributes); }
	static void collect(const std::vector<int>& v, Array<int>& a) { a.SetSize(0); for (int x : v) { int k = 0; while (k < a.Size() && a[k] != x) k++; if (k == a.Size()) a.Append(x); } a.Sort(); }
	Element* GetElement(int i) { return new Element(this, i, false); } const Element* GetElement(int i) const { return new Element(const_cast<Mesh*>(this), i, false); }
	Element* GetBdrElement(int i) { return new Element(this, i, true); } const Element* GetBdrElement(int i) const { return new Element(const_cast<Mesh*>(this), i, true); }
	Element* GetFace(int i) const { Element* e = new Element(const_cast<Mesh*>(this), i, false); e->face = true; return e; }
	Element* NewElement(int) { return new Element(this, 0, false); }
	Element::Type GetElementType(int i) const { return Element::Type(tables ? tables->type(i) : elem_type[i]); } Element::Type GetBdrElementType(int i) const { return Element::Type(bdr_type[i]); }
	Geometry::Type GetElementGeometry(int i) const { return vfGeomOf(elem_type[i]); } Geometry::Type GetElementBaseGeometry(int i) const { return vfGeomOf(elem_type[i]); }
	Geometry::Type GetFaceGeometry(int) const { return Dim == 3 ? Geometry::TRIANGLE : Dim == 2 ? Geometry::SEGMENT : Geometry::POINT; } Geometry::Type GetBdrElementGeometry(int i) const { return vfGeomOf(bdr_type[i]); }
	void GetElementVertices(int i, Array<int>& v) const { v.SetSize(nvpe); for (int k = 0; k < nvpe; k++) v[k] = elem_verts[i * nvpe + k]; }
	void GetBdrElementVertices(int i, Array<int>& v) const { v.SetSize(nvpb); for (int k = 0; k < nvpb; k++) v[k] = bdr_verts[i * nvpb + k]; }
	void GetFaceVertices(int i, Array<int>& v) const { if (tables) { v.SetSize(tables->per); for (int k = 0; k < tables->per; k++) v[k] = tables->face_vertex(i, k); return; } v.SetSize(nvpf); for (int k = 0; k < nvpf; k++) v[k] = face_verts[i * nvpf + k]; }
	void GetEdgeVertices(int i, Array<int>& v) const { GetFaceVertices(i, v); }
	double* GetVertex(int i) { if (tables) { double* p = new double[3]; for (int d = 0; d < 3; d++) p[d] = tables->coord(i, d); return p; } return &vert[3 * i]; } const double* GetVertex(int i) const { return const_cast<Mesh*>(this)->GetVertex(i); }
	void GetFaceElements(int f, int* a, int* b) const { *a = face_e1[f]; *b = face_e2[f]; }
	struct FaceInformation { int f = 0; bool interior = false; bool IsInterior() const { return interior; } bool IsBoundary() const { return !interior; } bool IsShared() const { return false; } bool IsLocal() const { return interior; } };
	FaceInformation GetFaceInformation(int f) const { FaceInformation r; r.f = f; return r; }
	bool FaceIsInterior(int f) const { return face_e2[f] >= 0; } bool FaceIsTrueInterior(int f) const { return face_e2[f] >= 0; }
	int GetBdrFace(int i) const { return bdr_face[i]; } int GetBdrElementFaceIndex(int i) const { return bdr_face[i]; } int GetBdrElementEdgeIndex(int i) const { return bdr_face[i]; }
	void GetBdrElementFace(int i, int* f, int* o) const { *f = bdr_face[i]; *o = 0; }
	Array<int> GetFaceToBdrElMap() const { Array<int> r(NumOfFaces); r = -1; for (int i = 0; i < NumOfBdrElements; i++) r[bdr_face[i]] = i; return r; }
	void GetBdrElementAdjacentElement(int i, int& el, int& info) const { el = face_e1[bdr_face[i]]; info = 0; }
	FaceElementTransformations* GetFaceElementTransformations(int f, int = 31);
	// geometry of a face, supplied by a contract
	static inline void (*face_setup)(FaceElementTransformations*) = nullptr; static inline void (*element_setup)(ElementTransformation*) = nullptr;
	FaceElementTransformations* GetInteriorFaceTransformations(int f) { return face_e2[f] < 0 ? nullptr : GetFaceElementTransformations(f); }
	FaceElementTransformations* GetBdrFaceTransformations(int i) { int f = bdr_face[i]; return face_e2[f] >= 0 ? nullptr : GetFaceElementTransformations(f); }
	FaceElementTransformations* GetInternalBdrFaceTransformations(int i) { int f = bdr_face[i]; return face_e2[f] < 0 ? nullptr : GetFaceElementTransformations(f); }
	ElementTransformation* GetElementTransformation(int i); ElementTransformation* GetBdrElementTransformation(int i); ElementTransformation* GetFaceTransformation(int f); ElementTransformation* GetEdgeTransformation(int f) { return GetFaceTransformation(f); }
	void GetElementTransformation(int i, IsoparametricTransformation*) {}
	// tables given as functions by a contract, for meshes with an arbitrary number of elements
	struct Tables { int faces, per; int (*face)(int e, int k); int (*face_vertex)(int f, int k); double (*coord)(int v, int d); double (*volume)(int e); int (*type)(int e); };
	const Tables* tables = nullptr;
	void row(int i, Array<int>& f) const { if (tables) { f.SetSize(tables->faces); for (int k = 0; k < tables->faces; k++) f[k] = tables->face(i, k); return; } int n = elem_face_I[i + 1] - elem_face_I[i]; f.SetSize(n); for (int k = 0; k < n; k++) f[k] = elem_face_J[elem_face_I[i] + k]; }
	void GetElementFaces(int i, Array<int>& f, Array<int>& o) const { row(i, f); o.SetSize(f.Size()); o = 0; }
	void GetElementEdges(int i, Array<int>& f, Array<int>& o) const { row(i, f); o.SetSize(f.Size()); o = 0; }
	void GetElementCenter(int i, Vector& c) { c.SetSize(spaceDim); for (int d = 0; d < spaceDim; d++) { double s = 0.0; for (int k = 0; k < nvpe; k++) s += vert[3 * elem_verts[i * nvpe + k] + d]; c(d) = s / nvpe; } }
	double GetElementSize(int i, int = 0) { return elem_size[i]; } double GetElementSize(ElementTransformation* T, int = 0) { return elem_size[T->ElementNo]; } double GetElementVolume(int i) { return tables ? tables->volume(i) : elem_vol[i]; }
	const Table& ElementToElementTable(); const Table& ElementToFaceTable() const; const Table& ElementToEdgeTable() const; Table* GetVertexToElementTable(); Table* GetFaceToElementTable() const { return new Table; }
	Table e2e; bool e2e_set = false;
	int* GeneratePartitioning(int n, int = 1);
	int* CartesianPartitioning(int*) { throw std::runtime_error("CartesianPartitioning"); }
	void FinalizeMesh(int = 0, bool = true) {} void FinalizeTopology(bool = true) {} void Finalize(bool = false, bool = false) {} void FinalizeTetMesh(int = 0, int = 0, bool = true) {} void FinalizeTriMesh(int = 0, int = 0, bool = true) {}
	int AddVertex(double x, double y = 0, double z = 0) { vert.push_back(x); vert.push_back(y); vert.push_back(z); return NumOfVertices++; } int AddVertex(const double*) { return NumOfVertices++; } int AddVertex(const Vector&) { return NumOfVertices++; }
	int AddTet(int, int, int, int, int = 1) { return NumOfElements++; } int AddTet(const int*, int = 1) { return NumOfElements++; } int AddSegment(int a, int b, int t = 1) { elem_verts.push_back(a); elem_verts.push_back(b); elem_attr.push_back(t); elem_type.push_back(Element::SEGMENT); return NumOfElements++; } int AddTriangle(int, int, int, int = 1) { return NumOfElements++; }
	int AddBdrElement(Element*) { return NumOfBdrElements++; } int AddElement(Element*) { return NumOfElements++; } int AddBdrPoint(int v, int t = 1) { bdr_verts.push_back(v); bdr_attr.push_back(t); bdr_type.push_back(Element::POINT); return NumOfBdrElements++; } int AddBdrSegment(int, int, int = 1) { return NumOfBdrElements++; } int AddBdrTriangle(int, int, int, int = 1) { return NumOfBdrElements++; }
	void UniformRefinement(int = 0) {} void SetCurvature(int o, bool = false, int = -1, int = 1) { curv = o; } void EnsureNodes() {} void EnsureNCMesh(bool = false) {}
	GridFunction* GetNodes() { return nodes; } const GridFunction* GetNodes() const { return nodes; } const FiniteElementSpace* GetNodalFESpace() const { return nodal_fes; }
	// coordinates of the nodes of a one-dimensional space, supplied by a contract
	double (*node_at)(const Mesh*, int order, int i) = nullptr; static inline double (*reference_node_at)(int order, int i) = nullptr;
	void GetNodes(GridFunction&) const; void GetNodes(Vector&) const {} void SetNodes(const Vector&) {} void Transform(void (*)(const Vector&, Vector&)) {}
	bool HasGeometry(Geometry::Type) const { return true; } void GetBoundingBox(Vector& a, Vector& b, int = 2) { a.SetSize(spaceDim); b.SetSize(spaceDim); a = 0.0; b = 1.0; }
	void GetCharacteristics(double& a, double& b, double& c, double& d, Vector* = nullptr, Vector* = nullptr) { a = b = c = d = 1.0; }
	void Print(std::ostream& = out) const {} void Save(const std::string&, int = 16) const {} void PrintVTU(std::string) {}
	void GenerateBoundaryElements() {} void RemoveInternalBoundaries() {} int FindPoints(DenseMatrix& pts, Array<int>& el, Array<IntegrationPoint>& ips, bool = true, InverseElementTransformation* = nullptr);
	int EulerNumber() const { return 0; } bool Conforming() const { return true; } bool Nonconforming() const { return false; }
	int MeshGenerator() { return 1; }
	std::function<int(const double*, int*, double*)> find_point;
};
inline int Element::GetAttribute() const { return bdr ? mesh->bdr_attr[id] : mesh->elem_attr[id]; }
inline void Element::SetAttribute(int a) { if (bdr) mesh->bdr_attr[id] = a; else mesh->elem_attr[id] = a; }
inline Element::Type Element::GetType() const { if (face) return mesh->Dim == 3 ? (mesh->nvpf == 4 ? QUADRILATERAL : TRIANGLE) : mesh->Dim == 2 ? SEGMENT : POINT; return Type(bdr ? mesh->bdr_type[id] : mesh->elem_type[id]); }
inline Geometry::Type Element::GetGeometryType() const { return vfGeomOf(GetType()); }
inline int Element::GetNVertices() const { return face ? mesh->nvpf : bdr ? mesh->nvpb : mesh->nvpe; }
inline int* Element::GetVertices() { if (face) return &mesh->face_verts[id * mesh->nvpf]; return bdr ? &mesh->bdr_verts[id * mesh->nvpb] : &mesh->elem_verts[id * mesh->nvpe]; }
inline const int* Element::GetVertices() const { if (face) return &mesh->face_verts[id * mesh->nvpf]; return bdr ? &mesh->bdr_verts[id * mesh->nvpb] : &mesh->elem_verts[id * mesh->nvpe]; }
inline void Element::GetVertices(Array<int>& v) const { if (face) mesh->GetFaceVertices(id, v); else if (bdr) mesh->GetBdrElementVertices(id, v); else mesh->GetElementVertices(id, v); }
inline int Element::GetNFaces() const { return Geometry::NumFaces[GetGeometryType()]; }
inline int Element::GetNEdges() const { return Geometry::NumEdges[GetGeometryType()]; }
inline Element* Element::Duplicate(Mesh* m) const { return new Element(m, id, bdr); }
inline Mesh::Mesh(const Mesh& o, bool) { *this = o; }
inline Mesh::Mesh(Mesh&& o) { *this = o; }
inline Mesh& Mesh::operator=(Mesh&& o) { return *this = static_cast<const Mesh&>(o); }
inline Mesh& Mesh::operator=(const Mesh& o)
{
	if (this == &o) return *this;
	Dim = o.Dim; spaceDim = o.spaceDim; NumOfElements = o.NumOfElements; NumOfBdrElements = o.NumOfBdrElements; NumOfVertices = o.NumOfVertices; NumOfFaces = o.NumOfFaces; nvpe = o.nvpe; nvpb = o.nvpb; nvpf = o.nvpf;
	elem_attr = o.elem_attr; bdr_attr = o.bdr_attr; elem_type = o.elem_type; bdr_type = o.bdr_type; elem_verts = o.elem_verts; bdr_verts = o.bdr_verts; bdr_face = o.bdr_face; face_e1 = o.face_e1; face_e2 = o.face_e2;
	elem_face_I = o.elem_face_I; elem_face_J = o.elem_face_J; face_verts = o.face_verts; vert = o.vert; face_normal = o.face_normal; elem_size = o.elem_size; elem_vol = o.elem_vol;
	attributes = o.attributes; bdr_attributes = o.bdr_attributes; nodes = o.nodes; nodal_fes = o.nodal_fes; curv = o.curv; loaded = o.loaded; ctor_gen = o.ctor_gen; ctor_ref = o.ctor_ref; ctor_fix = o.ctor_fix;
	tables = o.tables; node_at = o.node_at; find_point = o.find_point; if (o.e2e_set) { e2e.I = o.e2e.I; e2e.J = o.e2e.J; e2e.rows = o.e2e.rows; e2e_set = true; }
	return *this;
}
inline Mesh Mesh::MakeCartesian1D(int n, double sx)
{
	Mesh m; m.Dim = m.spaceDim = 1; m.NumOfElements = n; m.NumOfBdrElements = 2; m.NumOfVertices = n + 1; m.NumOfFaces = n + 1; m.nvpe = 2; m.nvpb = 1;
	m.elem_attr.resize(n, 1); m.elem_type.resize(n, int(Element::SEGMENT)); m.bdr_attr.push_back(1); m.bdr_attr.push_back(2); m.bdr_type.resize(2, int(Element::POINT));
	for (int i = 0; i < n; i++) { m.elem_verts.push_back(i); m.elem_verts.push_back(i + 1); }
	for (int i = 0; i <= n; i++) { m.vert.push_back(sx * i / n); m.vert.push_back(0.0); m.vert.push_back(0.0); m.face_verts.push_back(i); m.face_e1.push_back(i == 0 ? 0 : i - 1); m.face_e2.push_back(i == 0 || i == n ? -1 : i); }
	m.bdr_verts.push_back(0); m.bdr_verts.push_back(n); m.bdr_face.push_back(0); m.bdr_face.push_back(n);
	m.SetAttributes();
	return m;
}
inline FaceElementTransformations* Mesh::GetFaceElementTransformations(int f, int)
{
	auto* t = new FaceElementTransformations; t->face = f; t->mesh = this; t->Elem1No = face_e1[f]; t->Elem2No = face_e2[f]; t->geom = GetFaceGeometry(f); t->ElementNo = f; if (face_setup) face_setup(t);
	return t;
}
inline ElementTransformation* Mesh::GetElementTransformation(int i) { auto* t = new ElementTransformation; t->ElementNo = i; t->Attribute = elem_attr[i]; t->mesh = this; t->geom = GetElementGeometry(i); if (element_setup) element_setup(t); return t; }
inline ElementTransformation* Mesh::GetBdrElementTransformation(int i) { auto* t = new ElementTransformation; t->ElementNo = i; t->Attribute = bdr_attr[i]; t->mesh = this; return t; }
inline ElementTransformation* Mesh::GetFaceTransformation(int f) { auto* t = new ElementTransformation; t->ElementNo = f; t->mesh = this; return t; }
inline const Table& Mesh::ElementToElementTable()
{
	if (e2e_set) return e2e;
	e2e.rows = NumOfElements; e2e.I.clear(); e2e.J.clear();
	for (int i = 0; i < NumOfElements; i++) { e2e.I.push_back(int(e2e.J.size())); for (int f = 0; f < NumOfFaces; f++) { if (face_e1[f] == i && face_e2[f] >= 0) e2e.J.push_back(face_e2[f]); else if (face_e2[f] == i) e2e.J.push_back(face_e1[f]); } }
	e2e.I.push_back(int(e2e.J.size())); e2e_set = true;
	return e2e;
}
inline const Table& Mesh::ElementToFaceTable() const { Table* t = new Table; t->rows = NumOfElements; t->I = elem_face_I; t->J = elem_face_J; return *t; }
inline const Table& Mesh::ElementToEdgeTable() const { return ElementToFaceTable(); }
inline Table* Mesh::GetVertexToElementTable() { return new Table; }
inline int* Mesh::GeneratePartitioning(int n, int) { int* p = new int[NumOfElements]; for (int i = 0; i < NumOfElements; i++) p[i] = vf_ufii1("metis", i); return p; }
inline int Mesh::FindPoints(DenseMatrix& pts, Array<int>& el, Array<IntegrationPoint>& ips, bool, InverseElementTransformation*)
{
	int n = pts.Width(), found = 0; el.SetSize(n); ips.SetSize(n);
	for (int i = 0; i < n; i++) { int e = -1; double r[3] = {0, 0, 0}; if (find_point && find_point(pts.GetColumn(i), &e, r)) { found++; } el[i] = e; ips[i].x = r[0]; ips[i].y = r[1]; ips[i].z = r[2]; }
	return found;
}

class ParMesh : public Mesh {
public:
	MPI_Comm MyComm = MPI_COMM_WORLD; int NRanks = 1, MyRank = 0; int n_nbr_elems = 0; std::vector<int> nbr_elem_attr; int* part = nullptr; std::vector<int> shared_faces;
	ParMesh() {} ParMesh(MPI_Comm c, Mesh& m, const int* p = nullptr, int = 1) : Mesh(m), MyComm(c), part(const_cast<int*>(p)) {} ParMesh(const ParMesh& m, bool = true) : Mesh(m), MyComm(m.MyComm), part(m.part), shared_faces(m.shared_faces) {} ParMesh(ParMesh&& m) : Mesh(m), MyComm(m.MyComm), part(m.part), shared_faces(m.shared_faces) {}
	ParMesh& operator=(const ParMesh& o) { Mesh::operator=(o); MyComm = o.MyComm; part = o.part; shared_faces = o.shared_faces; return *this; } ParMesh& operator=(ParMesh&& o) { Mesh::operator=(o); MyComm = o.MyComm; part = o.part; shared_faces = o.shared_faces; return *this; }
	MPI_Comm GetComm() const { return MyComm; } int GetNRanks() const { return NRanks; } int GetMyRank() const { return MyRank; }
	void ExchangeFaceNbrData() {} void ExchangeFaceNbrNodes() {} int GetNSharedFaces() const { return int(shared_faces.size()); } int GetSharedFace(int i) const { return shared_faces.empty() ? i : shared_faces[i]; } int GetNFaceNeighbors() const { return 0; } int GetNFaceNeighborElements() const { return n_nbr_elems; }
	// the i-th shared face: the element beyond it is the i-th neighbour
	FaceElementTransformations* GetSharedFaceTransformations(int i, bool = true) { auto* t = GetFaceElementTransformations(GetSharedFace(i)); if (!shared_faces.empty()) { t->Elem2No = NumOfElements + i; t->Elem2 = new ElementTransformation; } return t; } FaceElementTransformations* GetSharedFaceTransformationsByLocalIndex(int i, bool = true) { return GetFaceElementTransformations(i); }
	long long GetGlobalElementNum(int i) const { return i; } int GetLocalElementNum(long long i) const { return int(i); }
	Element** face_nbr_elements = nullptr; int GetFaceNbrRank(int) const { return 0; } void ParPrint(std::ostream&) const {} void PrintAsOne(std::ostream&) const {} void ReorientTetMesh() {}
	void GetFaceNbrElementTransformation(int, IsoparametricTransformation*) {}
};

class TransferMap;
class SubMesh : public ParMesh {
public:
	enum From { Domain, Boundary }; static const int GENERATED_ATTRIBUTE = 900;
	Array<int> parent_element_ids_, parent_vertex_ids_, parent_face_ids_, parent_edge_ids_, parent_to_submesh_element_ids_; const Mesh* parent_ = nullptr; From from_ = Domain;
	static SubMesh CreateFromDomain(const Mesh& m, const Array<int>& at) { SubMesh s; s.make(m, at); return s; }
	static SubMesh CreateFromBoundary(const Mesh& m, const Array<int>& at) { SubMesh s; s.parent_ = &m; s.from_ = Boundary; return s; }
	void make(const Mesh& m, const Array<int>& at)
	{
		parent_ = &m; Dim = m.Dim; spaceDim = m.spaceDim; nvpe = m.nvpe; nvpb = m.nvpb; nvpf = m.nvpf;
		Array<int> inv(m.NumOfElements); inv = -1; parent_element_ids_.SetSize(0);
		for (int e = 0; e < m.NumOfElements; e++) { bool in = false; for (int k = 0; k < at.Size(); k++) if (m.elem_attr[e] == at[k]) in = true; if (in) { inv[e] = parent_element_ids_.Size(); parent_element_ids_.Append(e); elem_attr.push_back(m.elem_attr[e]); elem_type.push_back(m.elem_type[e]); for (int k = 0; k < m.nvpe; k++) elem_verts.push_back(m.elem_verts.empty() ? 0 : m.elem_verts[e * m.nvpe + k]); } }
		NumOfElements = parent_element_ids_.Size(); vert = m.vert; NumOfVertices = m.NumOfVertices;
		parent_to_submesh_element_ids_ = inv; parent_face_ids_.SetSize(0);
		std::vector<std::vector<int>> ef(NumOfElements);
		for (int f = 0; f < m.NumOfFaces; f++) {
			int a = m.face_e1[f], b = m.face_e2[f]; int sa = a >= 0 ? inv[a] : -1, sb = b >= 0 ? inv[b] : -1;
			if (sa < 0 && sb < 0) continue;
			int nf = parent_face_ids_.Size(); parent_face_ids_.Append(f);
			if (sa < 0) { sa = sb; sb = -1; }
			face_e1.push_back(sa); face_e2.push_back(sb); ef[sa].push_back(nf); if (sb >= 0) ef[sb].push_back(nf);
			int attr = -1; for (int i = 0; i < m.NumOfBdrElements; i++) if (m.bdr_face[i] == f) attr = m.bdr_attr[i];
			if (attr < 0 && sb < 0) attr = GENERATED_ATTRIBUTE;
			if (attr >= 0) { bdr_face.push_back(nf); bdr_attr.push_back(attr); bdr_type.push_back(m.bdr_type.empty() ? 0 : m.bdr_type[0]); }
		}
		NumOfFaces = parent_face_ids_.Size(); NumOfBdrElements = int(bdr_face.size()); elem_face_I.clear(); elem_face_J.clear();
		for (int e = 0; e < NumOfElements; e++) { elem_face_I.push_back(int(elem_face_J.size())); for (int x : ef[e]) elem_face_J.push_back(x); } elem_face_I.push_back(int(elem_face_J.size()));
		if (Dim == 1) parent_vertex_ids_ = parent_face_ids_; if (Dim == 2) parent_edge_ids_ = parent_face_ids_;
		SetAttributes();
	}
	const Array<int>& GetParentElementIDMap() const { return parent_element_ids_; } const Array<int>& GetParentVertexIDMap() const { return parent_vertex_ids_; } const Array<int>& GetParentFaceIDMap() const { return parent_face_ids_; } const Array<int>& GetParentEdgeIDMap() const { return parent_edge_ids_; }
	int GetSubMeshElementFromParent(int e) const { return parent_to_submesh_element_ids_[e]; } const Mesh* GetParent() const { return parent_; } From GetFrom() const { return from_; } static inline TransferMap CreateTransferMap(const GridFunction&, const GridFunction&); static void Transfer(const GridFunction&, GridFunction&);
};
class ParSubMesh : public SubMesh {
public:
	ParSubMesh() {} ParSubMesh(const ParSubMesh&) = default; ParSubMesh(ParSubMesh&&) = default; ParSubMesh& operator=(const ParSubMesh&) = default; ParSubMesh& operator=(ParSubMesh&&) = default;
	static ParSubMesh CreateFromDomain(const Mesh& m, const Array<int>& at) { ParSubMesh s; s.make(m, at); return s; } static ParSubMesh CreateFromBoundary(const Mesh& m, const Array<int>&) { ParSubMesh s; s.parent_ = &m; s.from_ = Boundary; return s; }
	const ParMesh* GetParent() const { return static_cast<const ParMesh*>(parent_); }
};
namespace SubMeshUtils { inline Array<int> BuildFaceMap(const Mesh&, const SubMesh& s, const Array<int>&) { return s.parent_face_ids_; } }

// ---------------------------------------------------------------- spaces and grid functions
class DofTransformation {};
class FiniteElementSpace {
public:
	Mesh* mesh = nullptr; const FiniteElementCollection* fec = nullptr; int vdim = 1, ndofs = 0; int dofs_per_elem = 1; std::vector<int> elem_dofs; const FiniteElement* fe = nullptr; int num_face_nbr_dofs = 0; std::vector<double> dof_pos;
	const FiniteElement* (*fe_of)(const FiniteElementSpace*, int) = nullptr;
	FiniteElementSpace() {} FiniteElementSpace(Mesh* m, const FiniteElementCollection* c, int v = 1, int = 0) : mesh(m), fec(c), vdim(v) { derive(); } virtual ~FiniteElementSpace() {}
	FiniteElementSpace(const FiniteElementSpace& o, Mesh* m = nullptr, const FiniteElementCollection* c = nullptr) : mesh(m ? m : o.mesh), fec(c ? c : o.fec), vdim(o.vdim), ndofs(o.ndofs), dofs_per_elem(o.dofs_per_elem), elem_dofs(o.elem_dofs), fe(o.fe), num_face_nbr_dofs(o.num_face_nbr_dofs), dof_pos(o.dof_pos), fe_of(o.fe_of) {}
	// discontinuous space: consecutive dofs element by element
	void derive() { int p = fec->order; int d = mesh->Dim; dofs_per_elem = vfNDofs(mesh->elem_type.empty() ? (d == 1 ? 1 : d == 2 ? 2 : 4) : mesh->elem_type[0], p); ndofs = mesh->NumOfElements * dofs_per_elem; fe = fec->fe ? fec->fe : FiniteElementCollection::common; }
	static int vfNDofs(int t, int p) { switch (t) { case 1: return p + 1; case 2: return (p + 1) * (p + 2) / 2; case 3: return (p + 1) * (p + 1); case 4: return (p + 1) * (p + 2) * (p + 3) / 6; case 5: return (p + 1) * (p + 1) * (p + 1); default: return 1; } }
	Mesh* GetMesh() const { return mesh; } const FiniteElementCollection* FEColl() const { return fec; } int GetVDim() const { return vdim; }
	int GetNDofs() const { return ndofs; } int GetVSize() const { return ndofs * vdim; } int GetTrueVSize() const { return ndofs * vdim; } long long GlobalTrueVSize() const { return ndofs; } int GetNE() const { return mesh->GetNE(); } int GetNBE() const { return mesh->GetNBE(); } int GetNF() const { return mesh->NumOfFaces; } int GetConformingVSize() const { return ndofs; } int GlobalVSize() const { return ndofs; }
	int GetMaxElementOrder() const { return fec->order; } int GetOrder(int) const { return fec->order; } int GetElementOrder(int) const { return fec->order; }
		void GetElementDofs_(int e, Array<int>& d) const { d.SetSize(dofs_per_elem); if (elem_dofs.empty()) for (int k = 0; k < dofs_per_elem; k++) d[k] = e * dofs_per_elem + k; else for (int k = 0; k < dofs_per_elem; k++) d[k] = elem_dofs[e * dofs_per_elem + k]; }
	DofTransformation* GetElementDofs(int e, Array<int>& d) const { GetElementDofs_(e, d); return nullptr; }
	DofTransformation* GetElementVDofs(int e, Array<int>& d) const { GetElementDofs(e, d); int n = d.Size(); for (int v = 1; v < vdim; v++) for (int k = 0; k < n; k++) d.Append(d[k] + v * ndofs); return nullptr; }
	const Table& GetElementToDofTable() const { Table* t = new Table; t->rows = mesh->NumOfElements; for (int e = 0; e < t->rows; e++) { t->I.push_back(int(t->J.size())); Array<int> d; GetElementDofs(e, d); for (int k = 0; k < d.Size(); k++) t->J.push_back(d[k]); } t->I.push_back(int(t->J.size())); return *t; }
	static inline const FiniteElementCollection* on_disk = nullptr; template <class In> void Load(Mesh* m, In&) { mesh = m; fec = on_disk; } int GetBdrAttribute(int i) const { return mesh->GetBdrAttribute(i); } int GetAttribute(int i) const { return mesh->GetAttribute(i); } void GetElementVertices(int i, Array<int>& v) const { mesh->GetElementVertices(i, v); }
	const FiniteElement* GetFE(int e) const { if (fe_of) return fe_of(this, e); return fe ? fe : fec->fe; } const FiniteElement* GetTypicalFE() const { return GetFE(0); } const FiniteElement* GetFaceElement(int) const { return GetFE(0); } const FiniteElement* GetBE(int) const { return GetFE(0); } const FiniteElement* GetTraceElement(int, Geometry::Type) const { return GetFE(0); }
	ElementTransformation* GetElementTransformation(int e) const { return mesh->GetElementTransformation(e); }
	void GetEssentialTrueDofs(const Array<int>&, Array<int>& d) const { d.SetSize(0); } void Update(bool = true) {} void GetFaceDofs(int, Array<int>& d, int = 0) const { d.SetSize(0); } void GetBdrElementDofs(int, Array<int>& d) const { d.SetSize(0); }
	void BuildDofToArrays() {} int GetElementForDof(int i) const { return i / dofs_per_elem; } int GetLocalDofForDof(int i) const { return i % dofs_per_elem; } int GetLDof(int i) const { return i; }
	virtual bool vfPar() const { return false; }
};
class ParFiniteElementSpace : public FiniteElementSpace {
public:
	ParMesh* pmesh = nullptr; int nbr_dofs_per_elem = 1;
	ParFiniteElementSpace() {} ParFiniteElementSpace(ParMesh* m, const FiniteElementCollection* c, int v = 1, int = 0) : FiniteElementSpace(m, c, v), pmesh(m) {} ParFiniteElementSpace(ParMesh* m, const FiniteElementSpace* o, const int* = nullptr, const FiniteElementCollection* c = nullptr) : FiniteElementSpace(m, c ? c : o->fec, o->vdim), pmesh(m) {} ParFiniteElementSpace(const ParFiniteElementSpace& o, ParMesh* m = nullptr, const FiniteElementCollection* c = nullptr) : FiniteElementSpace(o, m, c), pmesh(m ? m : o.pmesh) {}
	ParMesh* GetParMesh() const { return pmesh; } MPI_Comm GetComm() const { return pmesh ? pmesh->MyComm : MPI_COMM_WORLD; } int GetFaceNbrVSize() const { return num_face_nbr_dofs; } void ExchangeFaceNbrData() {} int GetMyRank() const { return 0; } int GetNRanks() const { return 1; } 
	const FiniteElement* GetFaceNbrFE(int i, int = 0) const { return GetFE(fe_of ? mesh->NumOfElements + i : 0); } void GetFaceNbrElementVDofs(int e, Array<int>& d) const { d.SetSize(nbr_dofs_per_elem); for (int k = 0; k < nbr_dofs_per_elem; k++) d[k] = e * nbr_dofs_per_elem + k; } ElementTransformation* GetFaceNbrElementTransformation(int) const { return new ElementTransformation; } Array<long long> face_nbr_glob_dof_map; int GlobalTrueVSize() const { return ndofs; } long long GetGlobalTDofNumber(int i) const { return i; }
	bool vfPar() const override { return true; }
};
class GridFunction : public Vector {
public:
	FiniteElementSpace* fes = nullptr;
	GridFunction() {} GridFunction(FiniteElementSpace* f) : fes(f) { SetSize(f->GetVSize()); } GridFunction(FiniteElementSpace* f, double* d) : Vector(d, f->GetVSize()), fes(f) {} GridFunction(FiniteElementSpace* f, Vector& b, int off = 0) : Vector(b.GetData() + off, f->GetVSize()), fes(f) {} GridFunction(const GridFunction& o) : Vector(o), fes(o.fes) {} GridFunction(Mesh*, std::istream&) {} template <class In, class = decltype(std::declval<In&>().count())> GridFunction(Mesh*, In& in) { int n = in.count(); SetSize(n); for (int i = 0; i < n; i++) in >> data[i]; }
	GridFunction& operator=(const GridFunction& o) { if (!fes) fes = o.fes; Vector::operator=(static_cast<const Vector&>(o)); return *this; } GridFunction& operator=(double v) { Vector::operator=(v); return *this; } GridFunction& operator=(const Vector& v) { Vector::operator=(v); return *this; }
	FiniteElementSpace* FESpace() { return fes; } const FiniteElementSpace* FESpace() const { return fes; }
	virtual void SetSpace(FiniteElementSpace* f) { fes = f; SetSize(f->GetVSize()); } virtual void MakeRef(FiniteElementSpace* f, double* d) { fes = f; SetDataAndSize(d, f->GetVSize()); } virtual void MakeRef(FiniteElementSpace* f, Vector& b, int off) { fes = f; Vector::MakeRef(b, off, f->GetVSize()); } void MakeRef(Vector& b, int off, int n) { Vector::MakeRef(b, off, n); } void MakeRef(Vector& b, int off) { Vector::MakeRef(b, off); }
	// nodal interpolation at the positions the contract gave the space
	virtual void ProjectCoefficient(Coefficient& c) { for (int i = 0; i < size; i++) { Pos t; t.f = fes; t.i = i; IntegrationPoint p; data[i] = c.Eval(t, p); } }
	struct Pos : ElementTransformation { FiniteElementSpace* f = nullptr; int i = 0; void Transform(const IntegrationPoint&, Vector& x) override { int sd = f->mesh ? f->mesh->spaceDim : 3; x.SetSize(sd); for (int d = 0; d < sd; d++) x(d) = f->dof_pos[3 * i + d]; } };
	virtual void ProjectCoefficient(VectorCoefficient&) {} void ProjectDiscCoefficient(Coefficient& c) { ProjectCoefficient(c); }
	double GetValue(int e, const IntegrationPoint& p, int vd = 1) const { const FiniteElement* f = fes->GetFE(e); Array<int> d; fes->GetElementDofs(e, d); double s = 0.0; for (int k = 0; k < d.Size(); k++) s += data[d[k] + (vd - 1) * fes->ndofs] * f->shape(f, &p, k); return s; }
	double GetValue(ElementTransformation& T, const IntegrationPoint& p, int c = 0, Vector* = nullptr) const { return GetValue(T.ElementNo, p, c > 0 ? c : 1); } void GetVectorValue(int e, const IntegrationPoint& p, Vector& v) const { v.SetSize(fes->vdim); for (int d = 0; d < fes->vdim; d++) v(d) = GetValue(e, p, d + 1); } void GetValues(int, const IntegrationRule&, Vector& v, int = 1) const { v.SetSize(1); }
	virtual double ComputeL2Error(Coefficient&, const IntegrationRule* [] = nullptr) const { return 0.0; } virtual double ComputeMaxError(Coefficient&, const IntegrationRule* [] = nullptr) const { return 0.0; }
	void GetElementDofValues(int e, Vector& v) const { Array<int> d; fes->GetElementDofs(e, d); GetSubVector(d, v); } void GetNodalValues(Vector&, int = 1) const {} void Save(std::ostream&) const {} virtual void Save(const char*, int = 16) const {} void GetTrueDofs(Vector& v) const { v = *this; } void SetFromTrueDofs(const Vector& v) { Vector::operator=(v); } void MakeOwner(FiniteElementCollection*) {} int VectorDim() const { return 1; } void SaveVTK(std::ostream&, const std::string&, int) {}
};
inline void Mesh::GetNodes(GridFunction& g) const { int p = g.fes->fec->order; for (int i = 0; i < g.Size(); i++) g(i) = node_at ? node_at(this, p, i) : reference_node_at ? reference_node_at(p, i) : 0.0; }
class ParGridFunction : public GridFunction {
public:
	ParFiniteElementSpace* pfes = nullptr; Vector face_nbr_data;
	ParGridFunction() {} ParGridFunction(ParFiniteElementSpace* f) : GridFunction(f), pfes(f) {} ParGridFunction(ParFiniteElementSpace* f, double* d) : GridFunction(f, d), pfes(f) {} ParGridFunction(ParFiniteElementSpace* f, Vector& b, int off = 0) : GridFunction(f, b, off), pfes(f) {} ParGridFunction(const ParGridFunction& o) : GridFunction(o), pfes(o.pfes), face_nbr_data(o.face_nbr_data) {} ParGridFunction(ParMesh*, GridFunction*, const int* = nullptr) {} ParGridFunction(ParMesh*, std::istream&) {} template <class In, class = decltype(std::declval<In&>().count())> ParGridFunction(ParMesh* m, In& in) : GridFunction(m, in) {}
	ParGridFunction& operator=(const ParGridFunction& o) { if (!pfes) pfes = o.pfes; GridFunction::operator=(o); return *this; } ParGridFunction& operator=(double v) { Vector::operator=(v); return *this; } ParGridFunction& operator=(const Vector& v) { Vector::operator=(v); return *this; }
	ParFiniteElementSpace* ParFESpace() const { return pfes; } using GridFunction::SetSpace; using GridFunction::MakeRef; void SetSpace(ParFiniteElementSpace* f) { pfes = f; GridFunction::SetSpace(f); } void SetSpace(FiniteElementSpace* f) override { pfes = dynamic_cast<ParFiniteElementSpace*>(f); GridFunction::SetSpace(f); }
	// assumed: the halo holds the neighbours' values of this field; the halo table of the contract is indexed by dof
	void ExchangeFaceNbrData() { if (!pfes) return; face_nbr_data.SetSize(pfes->num_face_nbr_dofs); if (halo_of) halo = halo_of(data); if (halo) for (int i = 0; i < pfes->num_face_nbr_dofs; i++) face_nbr_data(i) = halo[i]; exchanged++; } static inline double* (*halo_of)(const double*) = nullptr; Vector& FaceNbrData() { return face_nbr_data; } const Vector& FaceNbrData() const { return face_nbr_data; } double* halo = nullptr; int exchanged = 0; void Distribute(const Vector&) {} void ParallelAssemble(Vector&) const {}
	double ComputeL2Error(Coefficient&, const IntegrationRule* [] = nullptr) const override { return 0.0; }
};
class GridFunctionCoefficient : public Coefficient { public: const GridFunction* g; int c; GridFunctionCoefficient(const GridFunction* f, int comp = 1) : g(f), c(comp) {} double Eval(ElementTransformation& T, const IntegrationPoint& p) override { return g->GetValue(T.ElementNo, p, c); } };
class VectorGridFunctionCoefficient : public VectorCoefficient { public: const GridFunction* g; VectorGridFunctionCoefficient(const GridFunction* f) : VectorCoefficient(f->FESpace()->vdim), g(f) {} void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& p) override { g->GetVectorValue(T.ElementNo, p, V); } };
class TransferMap {
	Array<int> map_; bool up_ = false; int n_ = 0;
public:
	// dofs of the sub-domain space correspond to those of the parent element by element
	static void dofs(const FiniteElementSpace* sub, const FiniteElementSpace* par, Array<int>& m) { auto* s = static_cast<const SubMesh*>(sub->mesh); m.SetSize(0); for (int e = 0; e < s->NumOfElements; e++) { Array<int> d; par->GetElementDofs(s->parent_element_ids_[e], d); for (int k = 0; k < d.Size(); k++) m.Append(d[k]); } }
	TransferMap(const FiniteElementSpace& a, const FiniteElementSpace& b) { set(&a, &b); } TransferMap(const GridFunction& a, const GridFunction& b) { set(a.FESpace(), b.FESpace()); } TransferMap(const ParGridFunction& a, const ParGridFunction& b) { set(a.FESpace(), b.FESpace()); }
	void set(const FiniteElementSpace* a, const FiniteElementSpace* b) { up_ = dynamic_cast<SubMesh*>(a->mesh) != nullptr; if (up_) dofs(a, b, map_); else dofs(b, a, map_); }
	void Transfer(const GridFunction& s, GridFunction& d) const { if (up_) { for (int i = 0; i < map_.Size(); i++) d(map_[i]) = s(i); } else for (int i = 0; i < map_.Size(); i++) d(i) = s(map_[i]); }
};

inline TransferMap SubMesh::CreateTransferMap(const GridFunction& a, const GridFunction& b) { return TransferMap(a, b); }
inline void SubMesh::Transfer(const GridFunction& a, GridFunction& b) { TransferMap(a, b).Transfer(a, b); }
namespace SubMeshUtils { inline void BuildVdofToVdofMap(const FiniteElementSpace& s, const FiniteElementSpace& p, const SubMesh::From&, const Array<int>&, Array<int>& m) { TransferMap::dofs(&s, &p, m); } }

// ---------------------------------------------------------------- forms
class NonlinearFormIntegrator { public: const IntegrationRule* IntRule = nullptr; virtual ~NonlinearFormIntegrator() {} void SetIntRule(const IntegrationRule* r) { IntRule = r; } void SetIntegrationRule(const IntegrationRule& r) { IntRule = &r; } const IntegrationRule* GetIntegrationRule() const { return IntRule; } };
class BilinearFormIntegrator : public NonlinearFormIntegrator {
public:
	BilinearFormIntegrator(const IntegrationRule* = nullptr) {}
	virtual void AssembleElementMatrix(const FiniteElement&, ElementTransformation&, DenseMatrix&) { throw std::runtime_error("AssembleElementMatrix"); } virtual void AssembleElementMatrix2(const FiniteElement&, const FiniteElement&, ElementTransformation&, DenseMatrix&) { throw std::runtime_error("AssembleElementMatrix2"); }
	virtual void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { throw std::runtime_error("AssembleFaceMatrix"); } virtual void AssembleFaceMatrix(const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { throw std::runtime_error("AssembleFaceMatrix"); }
};
// element integrators of the library: quadrature of the stated form with the rule in use
class MassIntegrator : public BilinearFormIntegrator {
public:
	Coefficient* Q = nullptr; MassIntegrator(const IntegrationRule* = nullptr) {} MassIntegrator(Coefficient& q, const IntegrationRule* = nullptr) : Q(&q) {}
	static const IntegrationRule& GetRule(const FiniteElement& a, const FiniteElement& b, ElementTransformation& T) { return IntRules.Get(a.GetGeomType(), a.GetOrder() + b.GetOrder() + T.OrderW()); }
	void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { int n = el.GetDof(); m.SetSize(n); m = 0.0; const IntegrationRule& r = IntRule ? *IntRule : GetRule(el, el, T); Vector s(n); for (int q = 0; q < r.GetNPoints(); q++) { T.SetIntPoint(&r.IntPoint(q)); el.CalcShape(r.IntPoint(q), s); double w = r.IntPoint(q).weight * T.Weight() * (Q ? Q->Eval(T, r.IntPoint(q)) : 1.0); AddMult_a_VWt(w, s, s, m); } }
};
class InverseIntegrator : public BilinearFormIntegrator { public: BilinearFormIntegrator* in; InverseIntegrator(BilinearFormIntegrator* i, int = 1) : in(i) {} void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { DenseMatrix a; in->AssembleElementMatrix(el, T, a); m.SetSize(a.Height()); CalcInverse(a, m); } };
class DerivativeIntegrator : public BilinearFormIntegrator {
public:
	Coefficient* Q; int xi; DerivativeIntegrator(Coefficient& q, int i) : Q(&q), xi(i) {}
	void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { int n = el.GetDof(), d = el.GetDim(); m.SetSize(n); m = 0.0; const IntegrationRule& r = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), 2 * el.GetOrder()); Vector s(n); DenseMatrix g(n, d); for (int q = 0; q < r.GetNPoints(); q++) { T.SetIntPoint(&r.IntPoint(q)); el.CalcShape(r.IntPoint(q), s); el.CalcDShape(r.IntPoint(q), g); const DenseMatrix& a = T.AdjugateJacobian(); double w = r.IntPoint(q).weight * (Q ? Q->Eval(T, r.IntPoint(q)) : 1.0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < d; k++) m(i, j) += w * s(i) * g(j, k) * a(k, xi); } }
};
class TransposeIntegrator : public BilinearFormIntegrator { public: BilinearFormIntegrator* in; TransposeIntegrator(BilinearFormIntegrator* i, int = 1) : in(i) {} };
class DGTraceIntegrator : public BilinearFormIntegrator { public: DGTraceIntegrator(VectorCoefficient&, double, double = 0) {} };
class DiffusionIntegrator : public BilinearFormIntegrator { public: DiffusionIntegrator() {} DiffusionIntegrator(Coefficient&) {} };
class LinearFormIntegrator : public NonlinearFormIntegrator {
public:
	LinearFormIntegrator(const IntegrationRule* = nullptr) {}
	virtual void AssembleRHSElementVect(const FiniteElement&, ElementTransformation&, Vector&) = 0; virtual void AssembleRHSElementVect(const FiniteElement&, FaceElementTransformations&, Vector&) { throw std::runtime_error("AssembleRHSElementVect"); } virtual void AssembleRHSElementVect(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, Vector&) { throw std::runtime_error("AssembleRHSElementVect"); }
};
class BilinearForm : public Matrix {
protected:
	FiniteElementSpace* fes = nullptr; SparseMatrix* mat = nullptr; DenseMatrix elemmat; Array<int> vdofs; bool own_ = true;
public:
	// what was requested of the form, in order
	Array<BilinearFormIntegrator*> domain_integs, boundary_face_integs, interior_face_integs, boundary_integs; Array<Array<int>*> domain_marks, boundary_face_marks, boundary_marks, internal_bdr_marks; Array<BilinearFormIntegrator*> internal_bdr_integs; std::vector<Array<int>> interior_ignore; int assembled = 0;
	BilinearForm() {} BilinearForm(FiniteElementSpace* f) : Matrix(f->GetVSize()), fes(f) {} BilinearForm(FiniteElementSpace* f, BilinearForm*, int = 0) : Matrix(f->GetVSize()), fes(f) {} virtual ~BilinearForm() {}
	void AddDomainIntegrator(BilinearFormIntegrator* i) { domain_integs.Append(i); domain_marks.Append(nullptr); } void AddDomainIntegrator(BilinearFormIntegrator* i, Array<int>& m) { domain_integs.Append(i); domain_marks.Append(&m); } void AddInteriorFaceIntegrator(BilinearFormIntegrator* i) { interior_face_integs.Append(i); interior_ignore.push_back(Array<int>()); } void AddInteriorFaceIntegrator(BilinearFormIntegrator* i, Array<int>& m) { interior_face_integs.Append(i); interior_ignore.push_back(m); } void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* i) { internal_bdr_integs.Append(i); internal_bdr_marks.Append(nullptr); } void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* i, Array<int>& m) { internal_bdr_integs.Append(i); internal_bdr_marks.Append(&m); } void AddBdrFaceIntegrator(BilinearFormIntegrator* i) { boundary_face_integs.Append(i); boundary_face_marks.Append(nullptr); } void AddBdrFaceIntegrator(BilinearFormIntegrator* i, Array<int>& m) { boundary_face_integs.Append(i); boundary_face_marks.Append(&m); } void AddBoundaryIntegrator(BilinearFormIntegrator* i) { boundary_integs.Append(i); boundary_marks.Append(nullptr); } void AddBoundaryIntegrator(BilinearFormIntegrator* i, Array<int>& m) { boundary_integs.Append(i); boundary_marks.Append(&m); }
	virtual void Assemble(int skip_zeros = 1) { assembled++; if (!mat) mat = new SparseMatrix(height, width); vfAssemble(skip_zeros); }
	// an ignore marker leaves out the interior faces that carry a boundary element with a marked attribute
	static bool vfMarked(Mesh* m, int f, const Array<int>& mk) { for (int b = 0; b < m->GetNBE(); b++) if (m->bdr_face[b] == f && mk[m->bdr_attr[b] - 1] == 1) return true; return false; }
	// element-by-element and face-by-face accumulation, as documented for the library
	void vfAssemble(int skip) {
		Mesh* m = fes->GetMesh(); Array<int> v2;
		for (int e = 0; e < m->GetNE(); e++) for (int k = 0; k < domain_integs.Size(); k++) { if (domain_marks[k] && (*domain_marks[k])[m->GetAttribute(e) - 1] == 0) continue; fes->GetElementVDofs(e, vdofs); domain_integs[k]->AssembleElementMatrix(*fes->GetFE(e), *m->GetElementTransformation(e), elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip); }
		if (interior_face_integs.Size()) for (int f = 0; f < m->GetNumFaces(); f++) { FaceElementTransformations* tr = m->GetInteriorFaceTransformations(f); if (!tr) continue; fes->GetElementVDofs(tr->Elem1No, vdofs); fes->GetElementVDofs(tr->Elem2No, v2); vdofs.Append(v2); for (int k = 0; k < interior_face_integs.Size(); k++) { if (interior_ignore[k].Size() && vfMarked(m, f, interior_ignore[k])) continue; interior_face_integs[k]->AssembleFaceMatrix(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip); } }
		if (internal_bdr_integs.Size()) for (int b = 0; b < m->GetNBE(); b++) { int a = m->GetBdrAttribute(b); FaceElementTransformations* tr = m->GetInternalBdrFaceTransformations(b); if (!tr) continue; fes->GetElementVDofs(tr->Elem1No, vdofs); fes->GetElementVDofs(tr->Elem2No, v2); vdofs.Append(v2); for (int k = 0; k < internal_bdr_integs.Size(); k++) { if (internal_bdr_marks[k] && (*internal_bdr_marks[k])[a - 1] == 0) continue; internal_bdr_integs[k]->AssembleFaceMatrix(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem2No), *tr, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip); } }
		if (boundary_face_integs.Size()) for (int b = 0; b < m->GetNBE(); b++) { int a = m->GetBdrAttribute(b); FaceElementTransformations* tr = m->GetBdrFaceTransformations(b); if (!tr) continue; fes->GetElementVDofs(tr->Elem1No, vdofs); for (int k = 0; k < boundary_face_integs.Size(); k++) { if (boundary_face_marks[k] && (*boundary_face_marks[k])[a - 1] == 0) continue; boundary_face_integs[k]->AssembleFaceMatrix(*fes->GetFE(tr->Elem1No), *fes->GetFE(tr->Elem1No), *tr, elemmat); mat->AddSubMatrix(vdofs, vdofs, elemmat, skip); } }
	}
	virtual void Finalize(int skip_zeros = 1) { if (mat) mat->Finalize(skip_zeros); } SparseMatrix& SpMat() { return *mat; } const SparseMatrix& SpMat() const { return *mat; } SparseMatrix* LoseMat() { SparseMatrix* m = mat; mat = nullptr; return m; } void vfSet(SparseMatrix* m) { mat = m; }
	FiniteElementSpace* FESpace() { return fes; } const FiniteElementSpace* FESpace() const { return fes; } void KeepNbrBlock(bool = true) {} void UseSparsity(int*, int*, bool) {} void UseExternalIntegrators() {} void SetAssemblyLevel(int) {} void AllocateMatrix() { if (!mat) mat = new SparseMatrix(height, width); } double& Elem(int i, int j) { return mat->Elem(i, j); } void Update(FiniteElementSpace* = nullptr) {}
	void Mult(const Vector& x, Vector& y) const override { mat->Mult(x, y); } void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { mat->AddMult(x, y, a); } Array<BilinearFormIntegrator*>* GetDBFI() { return &domain_integs; } Array<BilinearFormIntegrator*>* GetFBFI() { return &interior_face_integs; } Array<BilinearFormIntegrator*>* GetBFBFI() { return &boundary_face_integs; }
};
class ParBilinearForm : public BilinearForm { public: ParFiniteElementSpace* pfes = nullptr; bool keep_nbr_block = false; ParBilinearForm(ParFiniteElementSpace* f) : BilinearForm(f), pfes(f) {} ParBilinearForm(ParFiniteElementSpace* f, ParBilinearForm*) : BilinearForm(f), pfes(f) {} void KeepNbrBlock(bool k = true) { keep_nbr_block = k; if (k) width = height + pfes->num_face_nbr_dofs; }
	// with interior face integrators the columns of the neighbours' unknowns follow the local ones, and the shared faces add to the rows of the local element
	void Assemble(int skip = 1) override {
		assembled++; bool faces = interior_face_integs.Size() > 0;
		if (!mat) mat = new SparseMatrix(height, faces && !keep_nbr_block ? width + pfes->num_face_nbr_dofs : width);
		vfAssemble(skip);
		ParMesh* pm = pfes->pmesh; if (!faces || !pm) return; Array<int> all, nbr;
		for (int i = 0; i < pm->GetNSharedFaces(); i++) { FaceElementTransformations* tr = pm->GetSharedFaceTransformations(i); fes->GetElementVDofs(tr->Elem1No, vdofs); pfes->GetFaceNbrElementVDofs(i, nbr); all = vdofs; for (int k = 0; k < nbr.Size(); k++) all.Append(height + nbr[k]); for (int k = 0; k < interior_face_integs.Size(); k++) { interior_face_integs[k]->AssembleFaceMatrix(*fes->GetFE(tr->Elem1No), *pfes->GetFaceNbrFE(i), *tr, elemmat); for (int a = 0; a < vdofs.Size(); a++) for (int b = 0; b < all.Size(); b++) mat->Add(vdofs[a], all[b], elemmat(a, b)); } }
	}
	 HypreParMatrix* ParallelAssemble() { return nullptr; } ParFiniteElementSpace* ParFESpace() const { return pfes; } };
class MixedBilinearForm : public Matrix { public: MixedBilinearForm(FiniteElementSpace*, FiniteElementSpace*) {} };
class LinearForm : public Vector {
public:
	FiniteElementSpace* fes = nullptr; Array<LinearFormIntegrator*> domain_integs, boundary_integs, boundary_face_integs; Array<Array<int>*> boundary_marks, boundary_face_marks;
	LinearForm() {} LinearForm(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) {} FiniteElementSpace* FESpace() { return fes; }
	void AddDomainIntegrator(LinearFormIntegrator* i) { domain_integs.Append(i); } void AddBoundaryIntegrator(LinearFormIntegrator* i) { boundary_integs.Append(i); boundary_marks.Append(nullptr); } void AddBoundaryIntegrator(LinearFormIntegrator* i, Array<int>& m) { boundary_integs.Append(i); boundary_marks.Append(&m); } void AddBdrFaceIntegrator(LinearFormIntegrator* i) { boundary_face_integs.Append(i); boundary_face_marks.Append(nullptr); } void AddBdrFaceIntegrator(LinearFormIntegrator* i, Array<int>& m) { boundary_face_integs.Append(i); boundary_face_marks.Append(&m); }
	void Assemble() { Vector::operator=(0.0); if (!fes || !fes->mesh) return; Mesh* m = fes->mesh; Vector ev; Array<int> d; if (boundary_face_integs.Size()) for (int b = 0; b < m->GetNBE(); b++) { int a = m->GetBdrAttribute(b); FaceElementTransformations* tr = m->GetBdrFaceTransformations(b); if (!tr) continue; fes->GetElementVDofs(tr->Elem1No, d); for (int k = 0; k < boundary_face_integs.Size(); k++) { if (boundary_face_marks[k] && (*boundary_face_marks[k])[a - 1] == 0) continue; boundary_face_integs[k]->AssembleRHSElementVect(*fes->GetFE(tr->Elem1No), *tr, ev); AddElementVector(d, ev); } } }
	double operator()(const GridFunction& g) const { double s = 0.0; for (int i = 0; i < size; i++) s += data[i] * g(i); return s; } using Vector::operator(); LinearForm& operator=(double v) { Vector::operator=(v); return *this; }
};
class ParLinearForm : public LinearForm { public: ParLinearForm(ParFiniteElementSpace* f) : LinearForm(f) {} };

// ---------------------------------------------------------------- services
enum class VTKFormat { ASCII, BINARY, BINARY32 };
class DataCollection {
public:
	std::string name; int cycle = -1; double time = 0.0; int saves = 0; std::map<std::string, GridFunction*> fields; std::string prefix;
	DataCollection(const std::string& n = "", Mesh* m = nullptr) : name(n), mesh(m) {} virtual ~DataCollection() {} virtual void RegisterField(const std::string& n, GridFunction* g) { fields[n] = g; } void SetCycle(int c) { cycle = c; } void SetTime(double t) { time = t; } void SetTimeStep(double) {} virtual void Save() { saves++; } void SetPrefixPath(const std::string& p) { prefix = p; } void SetPrecision(int) {} void SetMesh(Mesh*) {} const std::string& GetPrefixPath() const { return prefix; } Mesh* GetMesh() { return mesh; } Mesh* mesh = nullptr; int GetCycle() const { return cycle; } double GetTime() const { return time; } virtual void Load(int = 0) {} GridFunction* GetField(const std::string& n) { return fields[n]; } const std::string& GetCollectionName() const { return name; }
};
class ParaViewDataCollection : public DataCollection { public: using DataCollection::DataCollection; void SetLevelsOfDetail(int) {} void SetHighOrderOutput(bool) {} void SetDataFormat(VTKFormat) {} void SetCompressionLevel(int) {} void SetCompression(bool) {} void UseRestartMode(bool) {} };
class VisItDataCollection : public DataCollection { public: using DataCollection::DataCollection; VisItDataCollection(MPI_Comm, const std::string& n, Mesh* = nullptr) : DataCollection(n) {} };
struct Mpi { static inline int rank = 0, size = 1; static void Init() {} static void Init(int&, char**&) {} static void Finalize() {} static int WorldRank() { return rank; } static int WorldSize() { return size; } static bool Root() { return rank == 0; } static bool IsInitialized() { return true; } };
struct Hypre { static void Init() {} static void Finalize() {} };
struct Backend { enum Id : unsigned long { CPU = 1, OMP = 2, CUDA = 4, HIP = 8, DEVICE_MASK = 12, CUDA_MASK = 4 }; };
struct Device { static inline bool enabled = false; Device() {} explicit Device(const std::string&) {} explicit Device(const char*) {} void Configure(const std::string&) {} void Print(std::ostream& = out) {} static bool Allows(unsigned long) { return false; } static bool IsEnabled() { return false; } static void Synchronize() {} static bool GetGPUAwareMPI() { return false; } static void SetGPUAwareMPI(bool = true) {} };
struct StopWatch { void Clear() {} void Start() {} void Stop() {} void Restart() {} double RealTime() { return 0.0; } double UserTime() { return 0.0; } };
struct OptionsParser { OptionsParser(int, char**) {} template <class... A> void AddOption(A...) {} void Parse() {} bool Good() const { return true; } void PrintUsage(std::ostream&) const {} void PrintOptions(std::ostream&) const {} void ParseCheck() {} };
struct socketstream : std::ostringstream { socketstream() {} socketstream(const char*, int) {} };
inline void skip_comment_lines(std::istream&, const char) {}
template <class T> std::string to_padded_string(T v, int n) { std::string s = std::to_string(v); while (int(s.size()) < n) s = "0" + s; return s; }
inline std::string to_padded_string(int v, int n) { std::string s = std::to_string(v); while (int(s.size()) < n) s = "0" + s; return s; }
class DofToQuad {}; class Quadrature1D {}; class DenseSymmetricMatrix {};
}
