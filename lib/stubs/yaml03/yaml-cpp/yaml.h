// The interface of yaml-cpp 0.3 (which the YAML bridge uses) on top of the installed yaml-cpp 0.8.
#pragma once
#include_next <yaml-cpp/yaml.h>
#include <map>
#include <memory>
#include <vector>
namespace real_yaml = ::YAML;
namespace yaml03
{
    using namespace ::YAML::detail;
    using ::YAML::Emitter; using ::YAML::BeginMap; using ::YAML::EndMap; using ::YAML::BeginSeq; using ::YAML::EndSeq; using ::YAML::Key; using ::YAML::Value; using ::YAML::Flow; using ::YAML::Newline; using ::YAML::Exception;
    struct NodeType { enum value { Null, Scalar, Sequence, Map }; };
    class Node
    {
        ::YAML::Node n_; mutable std::map<std::string,std::unique_ptr<Node> > m_; mutable std::vector<std::unique_ptr<Node> > s_;
        Node(const Node&); Node&operator=(const Node&);
      public:
        Node() {}
        explicit Node(const ::YAML::Node&n):n_(n) {}
        void load(const ::YAML::Node&n){ n_.reset(n); m_.clear(); s_.clear(); }
        NodeType::value Type() const { switch(n_.Type()){ case ::YAML::NodeType::Scalar: return NodeType::Scalar; case ::YAML::NodeType::Sequence: return NodeType::Sequence; case ::YAML::NodeType::Map: return NodeType::Map; default: return NodeType::Null; } }
        std::size_t size() const { return Type()==NodeType::Sequence||Type()==NodeType::Map?n_.size():0; }
        const Node*FindValue(const std::string&key) const
        {
            if(Type()!=NodeType::Map) return 0;
            auto i=m_.find(key); if(i!=m_.end()) return i->second.get();
            for(auto e:n_) if(e.first.IsScalar()&&e.first.Scalar()==key){ Node*c=new Node(e.second); m_[key].reset(c); return c; }
            return 0;
        }
        const Node&operator[](std::size_t i) const
        {
            if(Type()!=NodeType::Sequence||i>=n_.size()) throw ::YAML::BadSubscript(n_.Mark(),i);
            if(s_.size()<n_.size()) s_.resize(n_.size()); if(!s_[i]) s_[i].reset(new Node(n_[i])); return *s_[i];
        }
        const Node&operator[](int i) const { return (*this)[(std::size_t)i]; }
        const Node&operator[](long i) const { return (*this)[(std::size_t)i]; }
        template<class T> void get(T&t) const { if(Type()!=NodeType::Scalar) throw ::YAML::InvalidScalar(n_.Mark()); t=n_.as<T>(); }
        template<class T> void get(std::vector<T>&t) const { if(Type()!=NodeType::Sequence) throw ::YAML::InvalidScalar(n_.Mark()); t.clear(); for(std::size_t i=0;i<size();++i){ T x; (*this)[i].get(x); t.push_back(x); } }
    };
    template<class T> void operator>>(const Node&n,T&t){ n.get(t); }
    class Parser
    {
        std::istream*s_; // documents other than the first are not needed (and yaml-cpp 0.8 can loop forever when it looks for them in damaged files)
      public:
        Parser():s_(0) {}
        void Load(std::istream&s){ s_=&s; }
        bool GetNextDocument(Node&n){ if(!s_) return false; n.load(::YAML::Load(*s_)); s_=0; return true; }
    };
}
#define YAML yaml03
