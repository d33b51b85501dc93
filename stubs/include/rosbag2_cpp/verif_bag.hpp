// Stand-in for rosbag2: bags live in the World's in-memory disk; every storage operation can fail.
#ifndef VERIF_ROSBAG2
#define VERIF_ROSBAG2
#include <memory>
#include <string>
#include <vector>
#include <rclcpp/rclcpp.hpp>
namespace rosbag2_storage
{
struct SerializedBagMessage
{
  std::shared_ptr<rcutils_uint8_array_t> serialized_data;
  int64_t time_stamp = 0;
  std::string topic_name;
};
using SerializedBagMessageSharedPtr = std::shared_ptr<SerializedBagMessage>;
struct StorageOptions { std::string uri; std::string storage_id; };
struct StorageFilter { std::vector<std::string> topics; };
struct TopicMetadata { std::string name, type, serialization_format; };
}
namespace rosbag2_cpp
{
struct ConverterOptions { std::string input_serialization_format, output_serialization_format; };
class Reader
{
public:
  void open(const std::string & uri) { bag_ = ::verif::w_bag_open_read(uri); at_ = 0; }
  void open(const rosbag2_storage::StorageOptions & o, const ConverterOptions & = ConverterOptions()) { open(o.uri); }
  void close() { bag_.clear(); }
  bool has_next() { skip(); return at_ < bag_.size(); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next()
  {
    ::verif::w_bag_read_tick();
    skip();
    if (at_ >= bag_.size()) throw std::runtime_error("Bag is at end. No next message.");
    auto & m = bag_[at_++];
    auto r = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    r->topic_name = m.topic;
    r->time_stamp = m.stamp;
    r->serialized_data = std::make_shared<rcutils_uint8_array_t>();
    r->serialized_data->verif_bytes = std::make_shared<std::vector<uint8_t>>(m.data);
    r->serialized_data->buffer = r->serialized_data->verif_bytes->data();
    r->serialized_data->buffer_length = r->serialized_data->buffer_capacity = m.data.size();
    return r;
  }
  void set_filter(const rosbag2_storage::StorageFilter & f) { filter_ = f.topics; }
  void reset_filter() { filter_.clear(); }
private:
  void skip()
  {
    while (at_ < bag_.size() && !filter_.empty()) {
      bool hit = false;
      for (auto & t : filter_) hit = hit || t == bag_[at_].topic;
      if (hit) return;
      ++at_;
    }
  }
  std::vector<std::string> filter_;
  ::verif::Bag bag_;
  size_t at_ = 0;
};
class Writer
{
public:
  ~Writer() { close(); }
  void open(const std::string & uri) { ::verif::w_bag_open_write(uri); uri_ = uri; open_ = true; }
  void open(const rosbag2_storage::StorageOptions & o, const ConverterOptions & = ConverterOptions()) { open(o.uri); }
  void close() { if (open_) ::verif::w_bag_close(uri_); open_ = false; }
  void create_topic(const rosbag2_storage::TopicMetadata &) {}
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic, const std::string & type,
             const rclcpp::Time & t) { write(*m, topic, type, t); }
  void write(const rclcpp::SerializedMessage & m, const std::string & topic, const std::string & type,
             const rclcpp::Time & t)
  {
    if (!open_) throw std::runtime_error("Bag is not open. Call open() before writing.");
    ::verif::BagMsg b;
    b.topic = topic;
    b.type = type;
    b.data = m.verif_bytes();
    b.stamp = t.nanoseconds();
    ::verif::w_bag_write(uri_, b);
  }
  template <class T>
  void write(const T & m, const std::string & topic, const rclcpp::Time & t)
  {
    rclcpp::Serialization<T> s;
    rclcpp::SerializedMessage o;
    s.serialize_message(&m, &o);
    write(o, topic, "", t);
  }
private:
  std::string uri_;
  bool open_ = false;
};
}  // namespace rosbag2_cpp
#endif
