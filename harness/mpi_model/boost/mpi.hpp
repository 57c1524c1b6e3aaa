// What k52 uses of Boost.MPI, on the model of an MPI world.
#ifndef MPI_MODEL_BOOST_MPI_HPP
#define MPI_MODEL_BOOST_MPI_HPP
#include <boost/optional.hpp>
#include <algorithm>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <numeric>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <mpi_world.h>
namespace boost { namespace mpi {
class status
{
public:
    status(int source = -1, int tag = -1) : source_(source), tag_(tag) {}
    int source() const { return source_; }
    int tag() const { return tag_; }
    int error() const { return 0; }
    bool cancelled() const { return false; }
private:
    int source_, tag_;
};
class environment
{
public:
    // without a world, a rank is alone
    environment() { if (mpi_model::world) mpi_model::world->environments[mpi_model::my_rank]++; if (mpi_model::environment_hook) mpi_model::environment_hook(); }
    ~environment() { if (mpi_model::world) mpi_model::world->environments[mpi_model::my_rank]--; }
    environment(int&, char**&) : environment() {}
    static bool initialized() { return true; }
    static bool finalized() { return false; }
    static std::string processor_name() { return "model"; }
};
class request
{
public:
    boost::optional<status> test()
    {
        if (!try_) throw std::logic_error("testing a request that has been completed");
        if (!try_()) return boost::optional<status>();
        try_ = nullptr;
        return at_;
    }
    status wait()
    {
        boost::optional<status> s;
        while (!(s = test())) {}
        return *s;
    }
    bool active() const { return (bool)try_; }
    status at_;
    std::function<bool()> try_;
};
class communicator
{
public:
    communicator() { if (mpi_model::world) mpi_model::world->communicators[mpi_model::my_rank]++; }
    ~communicator() { if (mpi_model::world) mpi_model::world->communicators[mpi_model::my_rank]--; }
    int rank() const { return mpi_model::my_rank; }
    int size() const { return mpi_model::world ? mpi_model::world->size : 1; }
    template<class T> void send(int to, int tag, const T& v) const
    {
        mpi_model::send(to, tag, {std::type_index(typeid(T)), std::shared_ptr<void>(new T(v), [](void* p) { delete static_cast<T*>(p); })});
    }
    template<class T> status recv(int from, int tag, T& v) const
    {
        mpi_model::Message m = mpi_model::receive(from, tag, typeid(T));
        v = *static_cast<T*>(m.value.get());
        return status(from, tag);
    }
    template<class T> request irecv(int from, int tag, T& v) const
    {
        size_t ticket = mpi_model::post(from, tag);
        request r;
        r.at_ = status(from, tag);
        T* p = &v;
        r.try_ = [=]
        {
            mpi_model::Message m{std::type_index(typeid(void)), nullptr};
            if (!mpi_model::try_receive(from, tag, ticket, typeid(T), m)) return false;
            *p = *static_cast<T*>(m.value.get());
            return true;
        };
        return r;
    }
    // a send that has its copy
    template<class T> request isend(int to, int tag, const T& v) const
    {
        send(to, tag, v);
        request r;
        r.at_ = status(to, tag);
        r.try_ = [] { return true; };
        return r;
    }
    // Boost.MPI cannot send these
    void send(int, int, const std::vector<bool>&) const = delete;
    status recv(int, int, std::vector<bool>&) const = delete;
};
}}
#endif
